From 942c470cf29102f2070dc217fa419b4a9773ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 01/76] fix: deliver messages of a source routed both through
 and to the application to both targets

---
 content/lib/pyswitch/controller/midi.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/midi.py b/content/lib/pyswitch/controller/midi.py
index 9a36f32..2371e73 100755
--- a/content/lib/pyswitch/controller/midi.py
+++ b/content/lib/pyswitch/controller/midi.py
@@ -61,6 +61,9 @@ class MidiController:
         self.__routings_to_appl = [x for x in routings if x.target == MidiRouting.APPLICATION]
         self.__routings_external = [x for x in routings if x.source != MidiRouting.APPLICATION and x.target != MidiRouting.APPLICATION]
 
+        # Messages already received by external routings which also have to reach the application (tuples of source, message)
+        self.__pending = []
+
     def send(self, midi_message):
         # Send to all routings which have APPLICATION as source
         for r in self.__routings_from_appl:    
@@ -70,8 +73,15 @@ class MidiController:
         # Process routings without APPLICATION involved 
         self.__process_external_routings()
 
+        # Sources which are also routed externally have already been read above
+        if self.__pending:
+            return self.__pending.pop(0)[1]
+
         # Process routings targeting APPLICATION
         for r in self.__routings_to_appl:
+            if r.source in [x.source for x in self.__routings_external]:
+                continue
+
             msg = r.source.receive()
 
             if msg:
@@ -92,8 +102,17 @@ class MidiController:
             if r.source in sources:
                 continue
 
+            # Do not read on as long as the application did not get the last message of this source
+            if r.source in [x[0] for x in self.__pending]:
+                continue
+
+            msg = r.source.receive()
+
             sources.append(r.source)
-            results.append(r.source.receive())
+            results.append(msg)
+
+            if msg and r.source in [x.source for x in self.__routings_to_appl]:
+                self.__pending.append((r.source, msg))
             
         # Distribute messages
         for r in routings:
-- 
2.43.0


From d4a547e42b8839cbffc66293d20f952d1ed5ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 02/76] fix: inform all parties which request a dependent
 parameter, not only the first one

---
 content/lib/pyswitch/controller/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 7db96cc..4078d40 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -316,11 +316,13 @@ class Client: #(ClientRequestListener):
             return
         
         if mapping.depends:
-            if not mapping in self.__dependencies:
-                self.__dependencies[mapping] = self._DependencyListener(self, mapping, listener)
+            # Every requester needs its own dependency listener, or all but the first one would never be informed
+            key = (mapping, listener)
+            if not key in self.__dependencies:
+                self.__dependencies[key] = self._DependencyListener(self, mapping, listener)
 
             # Register the dependency rather than the mapping itself
-            self._register_mapping(mapping.depends, self.__dependencies[mapping], True)
+            self._register_mapping(mapping.depends, self.__dependencies[key], True)
         else:
             self._register_mapping(mapping, listener, True)
         
-- 
2.43.0


From cfae71621b35e8a24488aa7ca002934683bdbc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 03/76] fix: do not keep the hold state of a switch after its
 release

---
 content/lib/pyswitch/controller/inputs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 60ae017..d3cde8d 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -84,8 +84,6 @@ class SwitchController:
                             return
 
                         if self.__hold_was_active:
-                            self.__hold_active = False
-                            self.__hold_was_active = False
                             return
 
                     for action in self.__actions:
@@ -97,15 +95,16 @@ class SwitchController:
 
                         action.release()
 
-                    self.__hold_active = False
-                    self.__hold_was_active = False
-                    
                 if self.override_action:
                     if self.override_action.release():
                         release()
                 else:
                     release()
 
+                # Never keep the hold state until the next push
+                self.__hold_active = False
+                self.__hold_was_active = False
+
             return
         else:
             if self.__hold_active and self.__check_hold():
-- 
2.43.0


From ac64d843864d3745b188089d9c378a67cd50528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 04/76] fix: release exactly the actions which have been pushed

---
 content/lib/pyswitch/controller/inputs.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index d3cde8d..ac6b50c 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -34,6 +34,7 @@ class SwitchController:
 
         self.__appl = appl
         self.__pushed_state = False
+        self.__pushed_actions = []
 
         self.__colors = [(0, 0, 0) for i in range(len(self.pixels))]
         self.__brightnesses = array('f', (0 for i in range(len(self.pixels))))
@@ -86,14 +87,13 @@ class SwitchController:
                         if self.__hold_was_active:
                             return
 
-                    for action in self.__actions:
-                        if not action.enabled:
-                            continue
+                        # Short press: Push and release all actions
+                        for action in self.__actions:
+                            if not action.enabled:
+                                continue
 
-                        if self.__actions_hold:
                             action.push()
-
-                        action.release()
+                            action.release()
 
                 if self.override_action:
                     if self.override_action.release():
@@ -101,7 +101,13 @@ class SwitchController:
                 else:
                     release()
 
-                # Never keep the hold state until the next push
+                # Release exactly the actions which have been pushed, regardless if they have been enabled, 
+                # disabled or overridden in the meantime
+                for action in self.__pushed_actions:
+                    action.release()
+
+                # Never keep any state until the next push
+                self.__pushed_actions = []
                 self.__hold_active = False
                 self.__hold_was_active = False
 
@@ -130,6 +136,7 @@ class SwitchController:
             if not action.enabled:
                 continue
 
+            self.__pushed_actions.append(action)
             action.push()
 
     # Checks hold time and triggers hold action if exceeded.
-- 
2.43.0


From 9f7bb37528c3549880ddd5cbfeb08dacdf7136cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 05/76] fix: setting a bidirectional parameter nobody listens
 to must not crash

---
 content/lib/pyswitch/controller/client.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 4078d40..879699e 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -569,12 +569,12 @@ class BidirectionalClient(Client, Updateable):
         # Notify listeners of the mapping with the set value (we do not use echoing, so the actions
         # will not reflect the state change if we just do nothing)
         if self.protocol.feedback_value(mapping):
+            mapping.value = value
+
+            # There is no request if nobody listens to the mapping (for example AnalogAction just sets values)
             req = self.get_matching_request(mapping)
-            if not req:
-                raise Exception() #"No request for mapping: " + repr(mapping))
-            
-            req.mapping.value = value
-            req.notify_listeners()
+            if req:
+                req.notify_listeners()
 
     # Update the protocol state
     def update(self):
-- 
2.43.0


From 8db54746ea7cc1c316bf933c5abf2800a441824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:38 +0000
Subject: [PATCH 06/76] fix: redraw all actions when they are reset, for
 example after tuner mode

---
 content/lib/pyswitch/controller/actions/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index e3c91db..6241dcf 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -146,11 +146,14 @@ class Action(Updateable):
         if self.callback:
             self.callback.update_displays()
     
-    # Reset the action
+    # Reset the action. This also redraws the displays, because the reset can be triggered by something which 
+    # used the LEDs or labels in the meantime (tuner mode, other pages).
     def reset(self):
         if self.callback:
             self.callback.reset()
 
+        self.update_displays()
+
     # Returns the switch LED segments to use
     def __get_led_segments(self):
         if not self.switch.pixels or not self.uses_switch_leds or not self.enabled:
@@ -309,7 +312,6 @@ class PushButtonAction(Action):
 
     # Reset the action: Set False state without sending anything
     def reset(self):
-        super().reset()
         self.__state = False
-        self.update_displays()
+        super().reset()
 
-- 
2.43.0


From ecb7e0d15108f3fb808540e1a2a7ada87a361a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 07/76] fix: initialize, update and reset pagers completely,
 and accept 0 as page ID to select

---
 content/lib/pyswitch/clients/local/actions/pager.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5548c56..ac204cf 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -55,7 +55,7 @@ class PagerAction(Callback, Action):
 
         self.current_page_index = -1
         self.current_page_id = None
-        self.__select_page_index = self._get_page_index(select_page) if select_page else None
+        self.__select_page_index = self._get_page_index(select_page) if select_page is not None else None
 
         self.enable_callback = PagerAction._EnableCallback(self)
 
@@ -94,11 +94,21 @@ class PagerAction(Callback, Action):
 
     # Must be called before usage
     def init(self, appl, switch):
+        Callback.init(self, appl)
         Action.init(self, appl, switch)
 
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
 
+    # Called regularly
+    def update(self):
+        Callback.update(self)
+        Action.update(self)
+
+    # Reset the action
+    def reset(self):
+        Action.reset(self)
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
-- 
2.43.0


From a7a4ecd030fc78bf47e92b6fb032115d553e2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 08/76] fix: encoders must not lose turns, and start from the
 current value

---
 .../controller/actions/EncoderAction.py       | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f80231b..1c2fec0 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -47,7 +47,7 @@ class EncoderAction(Updateable):
         self.__max_value = max_value
         self.__step_width = step_width
 
-        self.__last_pos = -1
+        self.__last_pos = None
         self._last_value = -1
         self.__convert_value = convert_value
 
@@ -114,7 +114,7 @@ class EncoderAction(Updateable):
         position = int(position * self.__step_width)
 
         # Initialize
-        if self.__last_pos == -1:
+        if self.__last_pos == None:
             self.__last_pos = position
 
         # Reset preview if the reset mapping had a value change
@@ -129,10 +129,15 @@ class EncoderAction(Updateable):
         if self.__last_pos == position:
             return
 
+        # Determine the value to start from: The current one, or the preselected one if there is one
+        start_value = self._last_value if self.__preselect_active else self._get_value()
+        known = (start_value != None)
+
         # No value yet
-        if self._get_value() == None:
+        if not known:
             self._set_value(0)
-            
+            start_value = -1 if self.__preselect else 0
+
         # Get the delta value
         add_value = position - self.__last_pos
         #add_value = int((position - self.__last_pos) * self.__step_width)
@@ -140,10 +145,7 @@ class EncoderAction(Updateable):
         self.__last_pos = position
 
         # Get value to set
-        if not self.__preselect:
-            v = self._get_value() + add_value
-        else:
-            v = self._last_value + add_value
+        v = start_value + add_value
 
         if v < self.__min_value:
             v = self.__min_value
@@ -151,7 +153,7 @@ class EncoderAction(Updateable):
             v = self.__max_value
 
         # If changed, set or preview the value
-        if self._last_value != v:
+        if v != start_value or not known:
             self._last_value = v
             
             if not self.__preselect:
-- 
2.43.0


From e0908c5b1d79ab5ba87732ca2e91b6e45fa4ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 09/76] fix: turning the bank select encoder before the current
 rig is known must not crash

---
 .../lib/pyswitch/clients/kemper/actions/bank_select_encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 92c2daf..693b6b0 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -62,6 +62,9 @@ class _BankSelectEncoderAction(EncoderAction):
         self._appl.shared["preselectedBank"] = self._last_value
 
     def _get_value(self):
+        if self._mapping.value == None:
+            return None
+
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-- 
2.43.0


From d98e0309b1a52851eb28c52b7730b44a5d5f7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 10/76] fix: no crash with a calibration window of zero

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index eba6f24..fe3e78e 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -95,7 +95,7 @@ class AnalogAction(Updateable):
                         self.__cal_factor = 65536 / (self.__cal_max - self.__cal_min)
 
                 # If the calibration window is too small, we dont send anything
-                if (self.__cal_max - self.__cal_min) < self.__cal_min_window:
+                if self.__cal_max == self.__cal_min or (self.__cal_max - self.__cal_min) < self.__cal_min_window:
                     return
                 
                 # Scale the input value up
-- 
2.43.0


From 609fbd7625ff15c5a75414b4f30387d448a7e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 11/76] fix: request the parameter which resets the
 preselection of an encoder

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 1c2fec0..846b68a 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -94,6 +94,9 @@ class EncoderAction(Updateable):
     def update(self):
         self._appl.client.request(self._mapping)
 
+        if self.__preview and self.__preselect and self.__preview_reset_mapping:
+            self._appl.client.request(self.__preview_reset_mapping)
+
         if self.__preview:
             self.__preview.update()
 
-- 
2.43.0


From fe87952cbb3da1561aa7a5f9c15b1b797960efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 12/76] fix: turning an encoder must not change parameters of
 actions which are disabled

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 3 ++-
 content/lib/pyswitch/controller/inputs.py                | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 846b68a..01c04e1 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -100,8 +100,9 @@ class EncoderAction(Updateable):
         if self.__preview:
             self.__preview.update()
 
+    # Called when the action is disabled (or reset): Turns which happen in the meantime are not regarded
     def reset(self):
-        pass
+        self.__last_pos = None
 
     # Override this to scale the incoming mapping values
     def _get_value(self):
diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index ac6b50c..05b0028 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -286,6 +286,7 @@ class ContinuousController:
 
         for action in self.actions:
             if not action.enabled:
+                action.reset()
                 continue
 
             action.process(value)
-- 
2.43.0


From a8af0b11c7cc1f9d7a047a32069867f22b230df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 13/76] fix: pass the parameter value to text callbacks of
 value previews, as documented

---
 content/lib/pyswitch/controller/preview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index 465cda6..df0b10e 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -99,7 +99,7 @@ class ValuePreview:
         val = round(value * 100 / max_value)
 
         if text_callback:
-            text = text_callback(val)
+            text = text_callback(value)
         else:
             prefix = f"{ mapping.name }: " if mapping.name else ""
             text = f"{ prefix }{ str(val) }%"
-- 
2.43.0


From 0e36cd7ce18734133c0a6e6f0b55e3a7c85a1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 14/76] fix: restore the text colour of a label when a blinking
 preview ends

---
 content/lib/pyswitch/controller/preview.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index df0b10e..c9f3a82 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -73,7 +73,7 @@ class ValuePreview:
             else:
                 self.__blink_period.interval = blink_interval_millis
         else:
-            self.__blink_period = None
+            self.__stop_blinking()
 
         self.__blink_color = blink_color
 
@@ -115,11 +115,9 @@ class ValuePreview:
 
     # Reset the display label to its default behaviour, either immediately or after the timeout period.
     def reset(self, immediately = False):
-        self.__blink_period = None
+        self.__stop_blinking()
         self.__stay = False
 
-        self.label.text_color = self.__orig_color
-
         if not self.__period:
             immediately = True
 
@@ -130,6 +128,11 @@ class ValuePreview:
         else:
             self.__period.reset()
         
+    # Stop blinking and go back to the original color
+    def __stop_blinking(self):
+        self.__blink_period = None
+        self.label.text_color = self.__orig_color
+
     # Must be called regularly
     def update(self):
         if self.label.override_text:
@@ -137,6 +140,7 @@ class ValuePreview:
             if not self.__stay and self.__period and self.__period.exceeded:
                 self.label.override_text = None
                 self.label.update_label()
+                self.__stop_blinking()
 
             # Blink
             if self.__blink_period and self.__blink_period.exceeded:
-- 
2.43.0


From 5838d9255ff021fde744c31550448b4e7723578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 15/76] fix: lay out the children which are passed to the
 constructor of a split container

---
 content/lib/pyswitch/ui/DisplaySplitContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/ui/DisplaySplitContainer.py b/content/lib/pyswitch/ui/DisplaySplitContainer.py
index 9da85e9..e49152e 100755
--- a/content/lib/pyswitch/ui/DisplaySplitContainer.py
+++ b/content/lib/pyswitch/ui/DisplaySplitContainer.py
@@ -11,6 +11,7 @@ class DisplaySplitContainer(DisplayElement):
         DisplayElement.__init__(self, bounds = bounds, name = name, id = id, children = children)
 
         self.direction = direction        
+        self.update_bounds()
     
     # Add a child element
     def add(self, child):
-- 
2.43.0


From 464ec0722c348e25b8a59dd93c8ba2563b67d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:59 +0000
Subject: [PATCH 16/76] fix: an effect slot without an effect always shows as
 off, also if it had been on before

---
 content/lib/pyswitch/controller/callbacks/effect_enable.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 2eba1e8..aa9ebb4 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -44,12 +44,19 @@ class EffectEnableCallback(BinaryParameterCallback):
 
         self.__current_kpp_type = self.mapping_fxtype.value
 
+        # The slot can have been empty before, so the state has to be determined again
+        self.evaluate_value(self.mapping.value)
+
         # Effect category text
         if self.action.label:
             self.action.label.text = self.get_effect_category_text(self.__effect_category, self.mapping_fxtype.value)
 
         super().update_displays()
 
+    # Empty slots always are off
+    def evaluate_value(self, value):
+        super().evaluate_value(value if self.__effect_category != self.CATEGORY_NONE else None)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 9eababba422644885281ec64be35e570f1e49bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:26 +0000
Subject: [PATCH 17/76] fix: a switch which was still pushed when tuner mode
 ended must not end it the next time

---
 content/lib/pyswitch/clients/kemper/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6737b30..3d7d87f 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -228,7 +228,9 @@ class TunerDisplayCallback(Callback):
                         input.color = Colors.WHITE
                         input.brightness = 0
         else:
-            # Tuner off
+            # Tuner off. Switches which are still pushed at this point must not have any effect on the next time.
+            self.__pushed_before = False
+
             for input in self.__appl.inputs:
                 if hasattr(input, "pixels"):
                     input.override_action = None
-- 
2.43.0


From eff04ef11d05220aaf7c23195c3a02b221c90052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 18/76] fix: keep the tuner deviance marker inside of its area

---
 content/lib/pyswitch/ui/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 08dfdc6..de5b237 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -290,7 +290,7 @@ class TunerDisplay(DisplayElement):
         def set(self, value):
             value_scaled = value
             if self.__zoom != 1:
-                value_scaled = max(-8192, min(int((value - 8192) * self.__zoom), 8192)) + 8191
+                value_scaled = max(-8191, min(int((value - 8192) * self.__zoom), 8192)) + 8191
 
             self.__marker.x = int(self.bounds.x + (self.bounds.width - self.width) * value_scaled / 16384)
 
-- 
2.43.0


From ea6e0bae9cf68a00d8bb19e707022dfd8d2a81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:41 +0000
Subject: [PATCH 19/76] fix: show the first tuner deviance which is received
 also if it is exactly in tune

---
 content/lib/pyswitch/ui/elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index de5b237..305238a 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -368,7 +368,7 @@ class TunerDisplay(DisplayElement):
             self.add(self.deviance)
 
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
 
     # We need access to the client, so we store appl here
     def init(self, ui, appl):
@@ -386,7 +386,7 @@ class TunerDisplay(DisplayElement):
     # Reset the display
     def reset(self):
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
         
         if self.label_note:
             self.label_note.text = "-"
-- 
2.43.0


From e711fc57003c4cae1f56aa2ae0fa92090c1d7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 20/76] fix: draw all LEDs of the strobe tuner when tuner mode
 starts again

---
 content/lib/pyswitch/controller/strobe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/strobe.py b/content/lib/pyswitch/controller/strobe.py
index 093250a..175bb08 100755
--- a/content/lib/pyswitch/controller/strobe.py
+++ b/content/lib/pyswitch/controller/strobe.py
@@ -71,6 +71,9 @@ class StrobeController:
                 # Tuner on
                 self.__enabled = True
                 self.__period.reset()
+
+                # The LEDs have been used by others in the meantime
+                self.__current_strobe_brightnesses = [None for s in self.__switches]
             else:
                 # Tuner off
                 self.__enabled = False
-- 
2.43.0


From b47cc48150bb9f4687e4235c21b43010e81122c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 21/76] fix: BANK_UP and BANK_DOWN crashed with dim_factor =
 "on"

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 3f89a38..d890e40 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -121,7 +121,7 @@ class KemperBankChangeCallback(Callback):
 
         if self.__dim_factor_p == "off":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOff", 0.2)
-        elif self.__display_mode == "on":
+        elif self.__dim_factor_p == "on":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOn", 1)
         else:
             self.__dim_factor = self.__dim_factor_p
-- 
2.43.0


From 81d26bb6b35990534fcbc8dc155be25acd6ce516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 22/76] fix: RIG_SELECT with "auto" off rig and bank went back
 to a rig which had never been selected

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 47c9984..d286bff 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -236,8 +236,12 @@ class _KemperRigSelectCallback(Callback):
             self.__current_value = self.__mapping.value
 
             # Auto rig off: If we are not on the "on" rig, set the current rig as "off" rig
-            if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and curr_rig != self.__rig - 1:
+            if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and not self.state:
                 self.__rig_off = curr_rig + 1
+
+                # The rig must be found again in its own bank (also if this is the "on" bank)
+                if self.__bank_off_auto:
+                    self.__bank_off = curr_bank + 1
                 
             if self.__bank_off_auto and curr_bank != self.__bank - 1:
                 self.__bank_off = curr_bank + 1
-- 
2.43.0


From 88323e4f163662f3d7e4f108ea256e10ddc87286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 23/76] fix: RIG_UP, RIG_DOWN, BANK_UP and BANK_DOWN end a bank
 preselection

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 4 ++++
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index d890e40..5159db5 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -156,6 +156,10 @@ class KemperBankChangeCallback(Callback):
         
         self.__appl.shared["morphStateOverride"] = 0
 
+        # If a bank preselection has been active, it ends when a rig is loaded
+        if not self.__preselect and "preselectedBank" in self.__appl.shared:
+            del self.__appl.shared["preselectedBank"]
+
     def release(self):
         pass
 
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index aa915f2..2414444 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -130,6 +130,10 @@ class _KemperRigChangeCallback(Callback):
         
         self.__appl.shared["morphStateOverride"] = 0
 
+        # If a bank preselection has been active, it ends here
+        if "preselectedBank" in self.__appl.shared:
+            del self.__appl.shared["preselectedBank"]
+
     def release(self):
         # Send release (0) value if necessary
         if not self.__sent_rig_mapping:
-- 
2.43.0


From e8e4b9f791a58aee19565d85077df77f125e71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 24/76] fix: the bank select encoder lost the current rig and
 forgot the preselected bank when the rig was changed at the device

---
 .../kemper/actions/bank_select_encoder.py       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 693b6b0..26946db 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -50,25 +50,28 @@ class _BankSelectEncoderAction(EncoderAction):
             self._appl.shared["preselectBlinkState"] = not self._appl.shared["preselectBlinkState"]
 
     def accept(self):
-        super().accept()
-
-        if self._last_value == -1:
-            return
-
         if not "preselectCallback" in self._appl.shared or not self._appl.shared["preselectCallback"] == self:
             self._appl.shared["preselectCallback"] = self                
             self._appl.shared["preselectBlinkState"] = False
 
-        self._appl.shared["preselectedBank"] = self._last_value
+        super().accept()
 
+    # Start from the preselected bank if there is one, or from the current one
     def _get_value(self):
+        if "preselectedBank" in self._appl.shared:
+            return self._appl.shared["preselectedBank"]
+
         if self._mapping.value == None:
             return None
 
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
+    # Other actions use the value of the mapping, too, so the rig must be kept
     def _set_value(self, value):
-        self._mapping.value = value * NUM_RIGS_PER_BANK
+        self._appl.shared["preselectedBank"] = value
+
+        rig = self._mapping.value % NUM_RIGS_PER_BANK if self._mapping.value != None else 0
+        self._mapping.value = value * NUM_RIGS_PER_BANK + rig
 
 
 def _convert_value(value):
-- 
2.43.0


From 5b5f25d8e9ae81dcb29896f9bf73ae06663d4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 25/76] fix: RIG_SELECT without rig must not preselect a bank
 as long as the current rig is unknown

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index d286bff..6050968 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -137,6 +137,10 @@ class _KemperRigSelectCallback(Callback):
 
     # Called when the switch is pushed down
     def push(self):
+        # The current rig cannot be selected as long as it is not known
+        if self.__rig == None and self.__mapping.value == None:
+            return
+
         state = self.state
 
         if self.__mapping.value != None:
-- 
2.43.0


From 4ddf2f4747ee2f4bf049bdc98f30de52d180c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:34 +0000
Subject: [PATCH 26/76] fix: Preselection and rotating actions do not overwrite
 the displays when they are disabled

---
 content/lib/pyswitch/clients/kemper/actions/bank_select.py  | 2 +-
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 content/lib/pyswitch/clients/kemper/actions/rig_select.py   | 2 +-
 content/lib/pyswitch/clients/local/actions/rotate.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index c0469df..ebfa2c1 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -108,7 +108,7 @@ class KemperBankSelectCallback(Callback):
 
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            self.update_displays()
+            self.action.update_displays()
 
     def push(self):
         if self.__mapping.value == None:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 5159db5..9694f71 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -169,7 +169,7 @@ class KemperBankChangeCallback(Callback):
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
             
-            self.update_displays()
+            self.action.update_displays()
 
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 6050968..0486b7f 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -219,7 +219,7 @@ class _KemperRigSelectCallback(Callback):
     
             if self.__last_blink_state != bs:
                 self.__last_blink_state = bs
-                self.update_displays()
+                self.action.update_displays()
 
 
     def update_displays(self):
diff --git a/content/lib/pyswitch/clients/local/actions/rotate.py b/content/lib/pyswitch/clients/local/actions/rotate.py
index fbffc66..eb161d3 100644
--- a/content/lib/pyswitch/clients/local/actions/rotate.py
+++ b/content/lib/pyswitch/clients/local/actions/rotate.py
@@ -99,7 +99,7 @@ class _CustomMessagesCallback(Callback):
             self.__appl.client.midi.send(self._RawMessage(self.__messages_release[self.__messages_release_pos]))
 
         self.__next_step()
-        self.update_displays()
+        self.action.update_displays()
 
     def __next_step(self):
         self.__messages_pos += 1
-- 
2.43.0


From 81557c5eedaee5ae19b0322dbc3104ecaa020a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 27/76] fix: BANK_SELECT stops blinking when its preselection
 is moved to another bank

---
 .../clients/kemper/actions/bank_select.py       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index ebfa2c1..b373e17 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -73,6 +73,7 @@ class KemperBankSelectCallback(Callback):
         self.__sent_rig_mapping = None
 
         self.__preselect = preselect
+        self.__preselected = False    # Is this bank currently preselected?
         if preselect:
             self.__preselect_blink_period = PeriodCounter(preselect_blink_interval)
 
@@ -106,10 +107,22 @@ class KemperBankSelectCallback(Callback):
     def update(self):
         Callback.update(self)
 
-        if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
-            self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
+        if not self.__preselect or not "preselectedBank" in self.__appl.shared:
+            return
+
+        preselected = (self.__appl.shared["preselectedBank"] == self.__bank - 1)
+
+        if preselected:
+            if self.__preselect_blink_period.exceeded:
+                self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
+                self.action.update_displays()
+
+        elif self.__preselected:
+            # Preselection was moved to another bank: Stop blinking
             self.action.update_displays()
 
+        self.__preselected = preselected
+
     def push(self):
         if self.__mapping.value == None:
             return
-- 
2.43.0


From 68a612088b9b657a6fddd3c95864dd8966f98a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 28/76] fix: Rig name display returns to the rig when a bank
 preselection ends

---
 content/lib/pyswitch/clients/kemper/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 3d7d87f..e74bb8a 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -99,12 +99,18 @@ class KemperRigNameCallback(Callback):
             if self.__preselect_initialized != self.__appl.shared["preselectedBank"]:
                 self.__preselect_initialized = self.__appl.shared["preselectedBank"]
 
-                if self.__show_name:
-                    self.parameter_changed(self.__mapping_name)
-                elif self.__show_rig_id:
-                    self.parameter_changed(self.__mapping_id)
-        else:
+                self.__refresh()
+
+        elif self.__preselect_initialized != None:
+            # Preselection has ended: Show the rig again
             self.__preselect_initialized = None
+            self.__refresh()
+
+    def __refresh(self):
+        if self.__show_name:
+            self.parameter_changed(self.__mapping_name)
+        elif self.__show_rig_id:
+            self.parameter_changed(self.__mapping_id)
 
     def update_label(self, label):
         if "preselectedBank" in self.__appl.shared:
-- 
2.43.0


From d38aeb83f39af31fe6233ea1de197ceb5ef758c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 29/76] fix: Effect type 137 (Dual Chromatic) belongs to the
 dual category

---
 content/lib/pyswitch/clients/kemper/actions/effect_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state.py b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
index 8052702..384f589 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
@@ -224,9 +224,9 @@ class KemperEffectEnableCallback(EffectEnableCallback):
         elif 129 <= kpp_effect_type <= 132:
             return self.CATEGORY_PITCH
 
-        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 138-140) ---
-        # 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
-        elif 138 <= kpp_effect_type <= 140:
+        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 137-140) ---
+        # 137=Dual Chromatic, 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
+        elif 137 <= kpp_effect_type <= 140:
             return self.CATEGORY_DUAL
 
         # --- Delay (MSB=1, decoded 145-166) ---
-- 
2.43.0


From b0dd338d0d0b9e08389b0b1bf777c4f5b873482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 30/76] fix: Switches without status feedback keep their state
 when the page has just been changed

---
 content/lib/pyswitch/controller/callbacks/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index 9f68186..45459b2 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -250,6 +250,10 @@ class BinaryParameterCallback(Callback):
 
     # Evaluate a new value
     def evaluate_value(self, value):
+        # Without a response, the state is never received: It must be kept (also after page changes)
+        if not self.mapping.response:
+            return
+
         state = False
 
         if value != None:
-- 
2.43.0


From 61b90c2e71f1c67b45a7bf58a154368552d7f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 31/76] fix: SHOW_TEMPO shows the tempo again after a page
 change

---
 content/lib/pyswitch/clients/kemper/actions/tempo.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index 1cb6e39..ffb7678 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -96,6 +96,7 @@ class _KemperShowTempoCallback(Callback):
         self._color = color
         self._led_brightness = led_brightness
         self.__current_value = None
+        self.__current_text = None
         self.__last_bpm = None
         self.__last_rig = None
 
@@ -105,6 +106,10 @@ class _KemperShowTempoCallback(Callback):
     def release(self):
         pass
 
+    # Other actions might have used the LEDs and label in the meantime
+    def reset(self):
+        self.__current_value = None
+
     def update(self):
         super().update()
 
@@ -125,11 +130,10 @@ class _KemperShowTempoCallback(Callback):
             self.action.switch_brightness = self._led_brightness if value > 0 else 0
 
         # Text to show
-        text = None
         if self.__bpm_mapping and self.__bpm_mapping.value != None:
             if self.__bpm_mapping.value != self.__last_bpm:
                 bpm = convert_bpm(self.__bpm_mapping.value)
-                text = self._text.replace('{bpm}', bpm)
+                self.__current_text = text = self._text.replace('{bpm}', bpm)
 
                 # Show in preview display? Dont do this for the first value that comes in.
                 if self.__preview and self.__last_bpm != None and self.__rig_id_mapping.value == self.__last_rig:
@@ -146,5 +150,5 @@ class _KemperShowTempoCallback(Callback):
         if self.action.label:
             self.action.label.back_color = self._color
 
-            if text:
-                self.action.label.text = text
+            if self.__current_text:
+                self.action.label.text = self.__current_text
-- 
2.43.0


From 8404648e8be3b9d18a949f90c4f7d64975366023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 32/76] fix: A switch pressed directly after a page change
 keeps its state

---
 content/lib/pyswitch/controller/actions/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index 6241dcf..bab2759 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -149,6 +149,9 @@ class Action(Updateable):
     # Reset the action. This also redraws the displays, because the reset can be triggered by something which 
     # used the LEDs or labels in the meantime (tuner mode, other pages).
     def reset(self):
+        # The next update() must not reset again: The switch might have been used already until then
+        self.__last_enabled = self.enabled
+
         if self.callback:
             self.callback.reset()
 
-- 
2.43.0


From b854c0b8dbf4d564a0f8a33fed9e77aa7d053189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:44 +0000
Subject: [PATCH 33/76] fix: All LEDs of a switch are redrawn when one of its
 actions is enabled or disabled

---
 content/lib/pyswitch/controller/actions/__init__.py   | 7 +++++++
 content/lib/pyswitch/controller/callbacks/__init__.py | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index bab2759..4ea14e7 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -127,6 +127,13 @@ class Action(Updateable):
 
             self.update_displays()
 
+            # The LEDs are divided among the enabled actions, so the others have to be redrawn, too
+            if self.uses_switch_leds:
+                for action in self.switch.actions:
+                    if action != self and action.callback:
+                        action.callback.invalidate_displays()
+                        action.update_displays()
+
     # Called when the switch is pushed down
     def push(self):
         if self.callback:
diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index 45459b2..550c8f7 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -39,6 +39,10 @@ class Callback(Updateable):
     def reset(self):
         pass                   # pragma: no cover
 
+    # Must be called when the displays have to be redrawn with the next update_displays() call
+    def invalidate_displays(self):
+        self.reset()
+
     #@RuntimeStatistics.measure
     def update(self):
         for m in self.__mappings:
@@ -229,6 +233,11 @@ class BinaryParameterCallback(Callback):
         self._current_color = -1
 
 
+    # Redraw, but keep the state
+    def invalidate_displays(self):
+        self._current_color = -1
+
+
     def update_displays(self):
         value = self.mapping.value
 
-- 
2.43.0


From 578a24bf25c356801ef04b935c73c1f20435d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 34/76] fix: PARAMETER_UP_DOWN does not exceed its color when
 the value is above the max. value

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 2654a69..1bef517 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -138,7 +138,8 @@ class _ParameterChangeCallback(Callback):
         
         self.__last_value = self._mapping.value
         
-        dim_factor = (self._mapping.value / self._max_value) if self._mapping.value != None else 0
+        # The device can also report values above the max. value
+        dim_factor = min(self._mapping.value / self._max_value, 1) if self._mapping.value != None else 0
         if self._offset < 0:
             dim_factor = 1 - dim_factor
 
-- 
2.43.0


From e94fa3a08c23467a3ce0b1d93458afdf07852ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:44 +0000
Subject: [PATCH 35/76] fix: PARAMETER_UP_DOWN steps from the current value
 when repeated or pressed quickly

---
 .../lib/pyswitch/clients/local/actions/param_change.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 1bef517..ba741ff 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -95,14 +95,15 @@ class _ParameterChangeCallback(Callback):
         self.__last_value = -1
 
     def update(self):
+        # Repeat before requesting the value, so the answer already contains the new value for the next repetition
+        if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
+            self.push()
+
         super().update()
 
         if self.__preview:
             self.__preview.update()
 
-        if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
-            self.push()
-
     def push(self):
         if self._mapping.value is None:
             return
@@ -116,6 +117,9 @@ class _ParameterChangeCallback(Callback):
         
         self.__appl.client.set(self._mapping, v)
 
+        # Request the new value, so the next step (or repetition) is based on it
+        self.__appl.client.request(self._mapping, self)
+
         if self.__preview:
             self.__preview.preview_mapping(
                 mapping = self._mapping,
-- 
2.43.0


From e8db3a09b88deb890e23d90bb825780523426480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:47 +0000
Subject: [PATCH 36/76] fix: DISPLAY_FIXED_TEXT applies its text color

---
 content/lib/pyswitch/ui/elements.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 305238a..f3ea8b1 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -177,6 +177,15 @@ class DisplayLabel(DisplayElement):
         if self.__label:
             self.__label.color = text_color
 
+    # The text color can also be set as color
+    @property
+    def color(self):
+        return self.text_color
+
+    @color.setter
+    def color(self, color):
+        self.text_color = color
+
     @property
     def text(self):
         return self.__layout.text
-- 
2.43.0


From 4c266b6d0d998aef0c2786c4d442b99199be76f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 37/76] fix: An encoder button can accept for one encoder and
 cancel for another

---
 .../pyswitch/clients/local/actions/encoder_button.py   | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/encoder_button.py b/content/lib/pyswitch/clients/local/actions/encoder_button.py
index 29cf1ca..a73f273 100755
--- a/content/lib/pyswitch/clients/local/actions/encoder_button.py
+++ b/content/lib/pyswitch/clients/local/actions/encoder_button.py
@@ -22,16 +22,14 @@ class _EncoderButtonCallback(Callback):
         super().__init__()
         
         self.__encoders = []
-        self.__cancel_mode = False
 
-    # cancel_mode tells us what to trigger later on, accept() or cancel().
+    # cancel_mode tells us what to trigger later on for this encoder, accept() or cancel().
     def register_encoder(self, encoder, cancel_mode):
-        self.__encoders.append(encoder)
-        self.__cancel_mode = cancel_mode
+        self.__encoders.append((encoder, cancel_mode))
 
     def push(self):
-        for encoder in self.__encoders:
-            if self.__cancel_mode:
+        for encoder, cancel_mode in self.__encoders:
+            if cancel_mode:
                 encoder.cancel()
             else:
                 encoder.accept()
-- 
2.43.0


From 76252c2dcc64c466da7c5488795ebc63c001ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:20 +0000
Subject: [PATCH 38/76] fix: auto calibrated pedals pass values within 0..65535
 to the transfer function

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index fe3e78e..7aff60d 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -98,8 +98,8 @@ class AnalogAction(Updateable):
                 if self.__cal_max == self.__cal_min or (self.__cal_max - self.__cal_min) < self.__cal_min_window:
                     return
                 
-                # Scale the input value up
-                value = int((value - self.__cal_min) * self.__cal_factor)
+                # Scale the input value up (to the range [0..65535])
+                value = min(int((value - self.__cal_min) * self.__cal_factor), 65535)
 
             # Determine the output value to be sent from the (possibly calibrated) input
             # value in range [0..65535]
-- 
2.43.0


From 4c5c7e131638f58b1fb77f9768b68b6d05323fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:56 +0000
Subject: [PATCH 39/76] fix: on/off actions show the device value again when
 there is no value to restore yet

---
 content/lib/pyswitch/controller/callbacks/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index 550c8f7..b92c862 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -213,6 +213,9 @@ class BinaryParameterCallback(Callback):
         if not isinstance(self._value_disable, list):
             if value != "auto":
                 self.__appl.client.set(set_mapping, value)
+            else:
+                # Nothing to restore yet, so the client value stays as it is: Show that again
+                self.__current_value = self
         else:
             auto_contained = False
             for v in self._value_disable:
@@ -221,6 +224,8 @@ class BinaryParameterCallback(Callback):
                     break
             if not auto_contained:
                 self.__appl.client.set(set_mapping, value)
+            elif not self.action.state:
+                self.__current_value = self
 
         # Request value
         self.update()
-- 
2.43.0


From d0bb67f9ab9e46616a7402505818249aa4f4286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 40/76] fix: The editor's parser keeps single quoted and
 non-string dict keys and unpacked values

---
 .../python/parser/misc/CodeExtractor.py       | 24 +++++++++++++++++--
 .../python/parser/misc/CodeGenerator.py       |  1 +
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index e88be3f..0b9124a 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -78,7 +78,10 @@ class CodeExtractor:
                 "value": self._parse_node(argument.value)
             }
 
-            if argument.keyword:
+            if argument.star:
+                new_arg["star"] = argument.star
+
+            elif argument.keyword:
                 new_arg["name"] = libcst.parse_module("").code_for_node(argument.keyword)
             else:
                 name = next_arg_name()
@@ -92,12 +95,17 @@ class CodeExtractor:
         return new_value
         
     def _parse_dict(self, dict_node):
+        # Only dicts with plain string keys can be represented as arguments, others are treated as code
+        for dict_element in dict_node.elements:
+            if not isinstance(dict_element, libcst.DictElement) or not self._is_plain_key(dict_element.key):
+                return libcst.parse_module("").code_for_node(dict_node)
+
         new_value = {
             "arguments": []
         }
 
         for dict_element in dict_node.elements:
-            key = dict_element.key.value.strip('\"')
+            key = dict_element.key.raw_value
             value = self._parse_node(dict_element.value)
             
             new_value["arguments"].append({
@@ -107,7 +115,19 @@ class CodeExtractor:
 
         return new_value
     
+    # Returns if a dict key can be written in double quotes without any changes
+    def _is_plain_key(self, key):
+        if not isinstance(key, libcst.SimpleString):
+            return False
+        
+        return key.prefix == "" and (key.quote == '"' or (key.quote == "'" and '"' not in key.raw_value))
+    
     def _parse_list(self, list_node):
+        # Lists with unpacked elements are treated as code
+        for element in list_node.elements:
+            if not isinstance(element, libcst.Element):
+                return libcst.parse_module("").code_for_node(list_node)
+
         new_value = []
 
         for element in list_node.elements:
diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index cd737cd..a9daf3b 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -98,6 +98,7 @@ class CodeGenerator:
             args = [
                 libcst.Arg(
                     keyword = libcst.parse_expression(arg["name"]) if ("name" in arg and arg["name"]) else None,
+                    star = arg["star"] if "star" in arg else "",
                     value = self._element_value(arg, level + 1),
                     whitespace_after_arg = self._generate_parenthesized_whitespace(libcst.SimpleWhitespace(""), (level + 1) if arg != last_arg else level)
                 )
-- 
2.43.0


From 99e6d30b78e0c0f2236a3d67dfe540ca9f002114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:41 +0000
Subject: [PATCH 41/76] fix: The editor's parser writes expressions spanning
 several lines

---
 web/htdocs/python/parser/misc/CodeGenerator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index a9daf3b..b77190d 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -36,8 +36,16 @@ class CodeGenerator:
             if "value" in data:
                 return self._generate(data["value"], level)
 
-        return libcst.parse_expression(data)
+        return self._parse_code(data)
         
+    # Generate libcst node from source code. Expressions which need the surrounding brackets (multi-line 
+    # or generator expressions for example) get their own ones.
+    def _parse_code(self, code):
+        try:
+            return libcst.parse_expression(code)
+        except libcst.ParserSyntaxError:
+            return libcst.parse_expression("(" + code + ")")
+
     ####################################################################################################################
 
     # Generate libcst node from th passed list representation
-- 
2.43.0


From 3ddb192d337a0748968300b7e5c275872a733b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 42/76] fix: The editor adds imports at module level only

---
 .../python/parser/misc/AddImportsTransformer.py       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddImportsTransformer.py b/web/htdocs/python/parser/misc/AddImportsTransformer.py
index 63d8377..20da99e 100644
--- a/web/htdocs/python/parser/misc/AddImportsTransformer.py
+++ b/web/htdocs/python/parser/misc/AddImportsTransformer.py
@@ -4,18 +4,17 @@ class AddImportsTransformer(libcst.CSTTransformer):
     
     def __init__(self, import_paths):
         self.import_paths = import_paths
-        self.__done = False
 
-    def leave_SimpleStatementLine(self, original_node, updated_node):
-        if self.__done:
+    def leave_Module(self, original_node, updated_node):
+        if not updated_node.body:
             return updated_node
         
-        self.__done = True
-        
         new_statements = [
             libcst.parse_statement("from " + definition["importPath"] + " import " + (definition["importName"] if "importName" in definition else definition["name"]) + "\n")
             for definition in self.import_paths
         ]
 
-        return libcst.FlattenSentinel(new_statements + [updated_node])
+        return updated_node.with_changes(
+            body = new_statements + list(updated_node.body)
+        )
         
\ No newline at end of file
-- 
2.43.0


From 64c4751355b0679f9df577ee5ddef8ac49061cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 43/76] fix: The editor does not replace imports of the user's
 own modules

---
 .../parser/misc/AddImportsTransformer.py      | 35 ++++++++++++++++---
 .../misc/RemoveUnusedImportTransformer.py     |  5 +--
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddImportsTransformer.py b/web/htdocs/python/parser/misc/AddImportsTransformer.py
index 20da99e..1712bf1 100644
--- a/web/htdocs/python/parser/misc/AddImportsTransformer.py
+++ b/web/htdocs/python/parser/misc/AddImportsTransformer.py
@@ -9,12 +9,37 @@ class AddImportsTransformer(libcst.CSTTransformer):
         if not updated_node.body:
             return updated_node
         
-        new_statements = [
-            libcst.parse_statement("from " + definition["importPath"] + " import " + (definition["importName"] if "importName" in definition else definition["name"]) + "\n")
-            for definition in self.import_paths
-        ]
+        # Names which are already imported must stay as they are
+        imported = self._imported_names(original_node)
+        new_statements = []
+
+        for definition in self.import_paths:
+            name = definition["importName"] if "importName" in definition else definition["name"]
+            if name in imported:
+                continue
+
+            imported.add(name)
+            new_statements.append(
+                libcst.parse_statement("from " + definition["importPath"] + " import " + name + "\n")
+            )
 
         return updated_node.with_changes(
             body = new_statements + list(updated_node.body)
         )
-        
\ No newline at end of file
+
+    # Returns a set of all names imported on module level
+    def _imported_names(self, module):
+        names = set()
+
+        for statement in module.body:
+            if not isinstance(statement, libcst.SimpleStatementLine):
+                continue
+
+            for node in statement.body:
+                if not isinstance(node, (libcst.Import, libcst.ImportFrom)) or isinstance(node.names, libcst.ImportStar):
+                    continue
+
+                for name in node.names:
+                    names.add(name.evaluated_alias or name.evaluated_name)
+
+        return names
diff --git a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
index 35b466a..697ec0c 100644
--- a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
+++ b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
@@ -8,16 +8,13 @@ class RemoveUnusedImportTransformer(libcst.CSTTransformer):
 
         self.unused_imports = defaultdict(set)
         
-        imported = []
         for scope in scopes:
             for assignment in scope.assignments:
                 node = assignment.node
 
                 if isinstance(assignment, libcst.metadata.Assignment) and isinstance(node, (libcst.Import, libcst.ImportFrom)):                    
-                    if len(assignment.references) == 0 or assignment.name in imported:                        
+                    if len(assignment.references) == 0:
                         self.unused_imports[node].add(assignment.name)
-                    else:
-                        imported.append(assignment.name)
 
     def _leave_import_alike(self, original_node, updated_node):
         if original_node not in self.unused_imports:
-- 
2.43.0


From ab2341889436bd3dfbf51efc937fea56ac198459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:52 +0000
Subject: [PATCH 44/76] fix: The editor's parser accepts assignments to
 attributes, items and tuples

---
 web/htdocs/python/parser/misc/AddAssignmentTransformer.py     | 2 +-
 web/htdocs/python/parser/misc/AssignmentExtractor.py          | 3 +++
 web/htdocs/python/parser/misc/AssignmentNameExtractor.py      | 3 +++
 web/htdocs/python/parser/misc/CodeExtractor.py                | 2 +-
 web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py | 3 ++-
 5 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
index e5cced1..8be9026 100644
--- a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
@@ -34,7 +34,7 @@ class AddAssignmentTransformer(TransformerWithStack):
             assign = updated_node.body[0]
             
             for target in assign.targets:
-                if target.target.value == self.insert_before_assign:                
+                if isinstance(target.target, libcst.Name) and target.target.value == self.insert_before_assign:                
                     return libcst.FlattenSentinel([self._generate_statement(), updated_node])
         else:
             if not self.cst:
diff --git a/web/htdocs/python/parser/misc/AssignmentExtractor.py b/web/htdocs/python/parser/misc/AssignmentExtractor.py
index d191771..61641c3 100644
--- a/web/htdocs/python/parser/misc/AssignmentExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentExtractor.py
@@ -21,6 +21,9 @@ class AssignmentExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
+                if not isinstance(target.target, libcst.Name):
+                    continue
+
                 ret.append({
                     "name": target.target.value,
                     "node": assign.value
diff --git a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
index f4fa4b3..aa6c4ac 100644
--- a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
@@ -17,6 +17,9 @@ class AssignmentNameExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
+                if not isinstance(target.target, libcst.Name):
+                    continue
+
                 if target.target.value.startswith("_"):
                     continue
 
diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index 0b9124a..1c7e8b8 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -27,7 +27,7 @@ class CodeExtractor:
 
             assign = statement.body[0]
             for target in assign.targets:
-                if target.target.value != assign_name:
+                if not isinstance(target.target, libcst.Name) or target.target.value != assign_name:
                     continue
 
                 ret = self._parse_node(assign.value)
diff --git a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
index b07ff59..d620bd5 100644
--- a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
@@ -1,3 +1,4 @@
+import libcst
 from .VisitorsWithStack import TransformerWithStack
 
 class ReplaceAssignmentTransformer(TransformerWithStack):
@@ -12,7 +13,7 @@ class ReplaceAssignmentTransformer(TransformerWithStack):
             return updated_node
         
         for target in updated_node.targets:
-            if target.target.value == self.name:
+            if isinstance(target.target, libcst.Name) and target.target.value == self.name:
                 self.replaced = True
                 return updated_node.with_changes(
                     value = self.node
-- 
2.43.0


From 0f7d429a0998f2af9ed6aabf178ff7091b99e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:41 +0000
Subject: [PATCH 45/76] fix: Editor: Input handlers deliver the current hold
 actions after changes

---
 web/htdocs/js/model/parser/ParserInput.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/htdocs/js/model/parser/ParserInput.js b/web/htdocs/js/model/parser/ParserInput.js
index 2d1c46e..57d6b1d 100644
--- a/web/htdocs/js/model/parser/ParserInput.js
+++ b/web/htdocs/js/model/parser/ParserInput.js
@@ -26,6 +26,10 @@ class ParserInput extends ParserTreeElement {
                 throw new Error("The input is invalid and cannot be reactivated again: " + this.assignment.name);
             }
 
+            // The buffered actions refer to the old data
+            this.#actions = null;
+            this.#actionsHold = null;
+
             this.setValid();
             super.checkValid();
         }
@@ -136,6 +140,7 @@ class ParserInput extends ParserTreeElement {
         })
         
         this.#actions = null;
+        this.#actionsHold = null;
         this.setArgument(hold ? "actionsHold" : "actions", prepped);
 
         if (!noUpdate) {
-- 
2.43.0


From bc05ef6656f01942a6f9d2be3425535e9f7c6891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 46/76] fix: Editor: Assigned empty lists can be written

---
 web/htdocs/python/parser/misc/CodeGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index b77190d..6e60dfe 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -29,7 +29,7 @@ class CodeGenerator:
             
             if "assign" in data and data["assign"]:
                 return self._resolve_assign(
-                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] else None, 
+                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] != None else None, 
                     data = data
                 )                
             
-- 
2.43.0


From 7abd84311928b1795ea1d51354bb0283473898f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:23 +0000
Subject: [PATCH 47/76] fix: Editor: Changes of assigned actions are applied to
 all places they are used

---
 web/htdocs/js/model/parser/ParserInput.js | 28 +++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/web/htdocs/js/model/parser/ParserInput.js b/web/htdocs/js/model/parser/ParserInput.js
index 57d6b1d..20a9580 100644
--- a/web/htdocs/js/model/parser/ParserInput.js
+++ b/web/htdocs/js/model/parser/ParserInput.js
@@ -143,11 +143,39 @@ class ParserInput extends ParserTreeElement {
         this.#actionsHold = null;
         this.setArgument(hold ? "actionsHold" : "actions", prepped);
 
+        // Assigned actions can also be used elsewhere
+        for (const action of prepped) {
+            if (action.assign) this.#updateAssigned(this.parser.inputs(), action);
+        }
+
         if (!noUpdate) {
             this.parser.updateConfig();
         }
     }
 
+    /**
+     * Updates all (raw) nodes below the passed one which represent the same assigned action.
+     */
+    #updateAssigned(node, action) {
+        if (!node || typeof node != "object" || node === action) return;
+
+        if (Array.isArray(node)) {
+            for (const item of node) {
+                this.#updateAssigned(item, action);
+            }
+            return;
+        }
+
+        if (node.assign == action.assign && node.arguments) {
+            node.name = action.name;
+            node.arguments = structuredClone(action.arguments);
+            return;
+        }
+
+        this.#updateAssigned(node.value, action);
+        this.#updateAssigned(node.arguments, action);
+    }
+
     /**
      * Encodes a page deifinition like used in the UI and returns it as raw parser definition
      */
-- 
2.43.0


From 96b5ec06f6bd07c3e89609e59c1a835a18ace424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 48/76] fix: Editor: Assignments are moved in front of the ones
 which use them after changes

---
 web/htdocs/js/PySwitchRunner.js               |  1 +
 web/htdocs/python/parser/PySwitchParser.py    |  7 ++
 .../misc/OrderAssignmentsTransformer.py       | 66 +++++++++++++++++++
 3 files changed, 74 insertions(+)
 create mode 100644 web/htdocs/python/parser/misc/OrderAssignmentsTransformer.py

diff --git a/web/htdocs/js/PySwitchRunner.js b/web/htdocs/js/PySwitchRunner.js
index 036d3e6..e25bb85 100644
--- a/web/htdocs/js/PySwitchRunner.js
+++ b/web/htdocs/js/PySwitchRunner.js
@@ -125,6 +125,7 @@ class PySwitchRunner {
             this.#loadModule("parser/misc/AssignmentNameExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/ImportExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/ReplaceAssignmentTransformer.py", localPythonPath),
+            this.#loadModule("parser/misc/OrderAssignmentsTransformer.py", localPythonPath),
             this.#loadModule("parser/misc/AddAssignmentTransformer.py", localPythonPath),
             this.#loadModule("parser/misc/CodeExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/CodeGenerator.py", localPythonPath),        
diff --git a/web/htdocs/python/parser/PySwitchParser.py b/web/htdocs/python/parser/PySwitchParser.py
index 8e3e8bd..25c7ea1 100644
--- a/web/htdocs/python/parser/PySwitchParser.py
+++ b/web/htdocs/python/parser/PySwitchParser.py
@@ -11,6 +11,7 @@ from .misc.AssignmentNameExtractor import AssignmentNameExtractor
 from .misc.AssignmentExtractor import AssignmentExtractor
 from .misc.ImportExtractor import ImportExtractor
 from .misc.ReplaceAssignmentTransformer import ReplaceAssignmentTransformer
+from .misc.OrderAssignmentsTransformer import OrderAssignmentsTransformer
 from .misc.AddAssignmentTransformer import AddAssignmentTransformer
 from .misc.ClassNameExtractor import ClassNameExtractor
 
@@ -81,6 +82,7 @@ class PySwitchParser:
         ).generate(inputs_py)
         
         self.set_assignment("Inputs", inputs_node, "inputs_py")
+        self._order_assignments("inputs_py")
 
     # Searches for an Assign with the given name and returns its node, or None if not found
     def get_assignment(self, name, file_id):
@@ -127,6 +129,7 @@ class PySwitchParser:
         ).generate(splashes_py)
         
         self.set_assignment("Splashes", splashes_node, "display_py")
+        self._order_assignments("display_py")
 
     ########################################################################################
         
@@ -146,6 +149,10 @@ class PySwitchParser:
 
         self.__csts[file_id] = self.__csts[file_id].visit(adder)
 
+    # Existing assignments can use others after a change which come later in the code
+    def _order_assignments(self, file_id):
+        self.__csts[file_id] = self.__csts[file_id].visit(OrderAssignmentsTransformer())
+
     ########################################################################################
 
     # Remove unused imports on all files. Does no config update!
diff --git a/web/htdocs/python/parser/misc/OrderAssignmentsTransformer.py b/web/htdocs/python/parser/misc/OrderAssignmentsTransformer.py
new file mode 100644
index 0000000..557cc04
--- /dev/null
+++ b/web/htdocs/python/parser/misc/OrderAssignmentsTransformer.py
@@ -0,0 +1,66 @@
+import libcst
+
+# Moves top level assignments in front of the first assignment which uses them, if necessary. All others stay where they are.
+class OrderAssignmentsTransformer(libcst.CSTTransformer):
+
+    def leave_Module(self, original_node, updated_node):
+        assigns = {}
+        for statement in updated_node.body:
+            for name in self._assigned_names(statement):
+                assigns.setdefault(name, statement)
+
+        body = []
+        visited = []
+
+        def add(statement):
+            if any(v is statement for v in visited):
+                return
+            
+            visited.append(statement)
+
+            if self._assigned_names(statement):
+                names = _NamesCollector()
+                statement.body[0].value.visit(names)
+
+                for name in names.result:
+                    if name in assigns:
+                        add(assigns[name])
+            
+            body.append(statement)
+
+        for statement in updated_node.body:
+            add(statement)
+
+        return updated_node.with_changes(body = body)
+
+    # Returns all names assigned by the statement
+    def _assigned_names(self, statement):
+        if not isinstance(statement, libcst.SimpleStatementLine) or not isinstance(statement.body[0], libcst.Assign):
+            return []
+        
+        return [
+            target.target.value 
+            for target in statement.body[0].targets
+            if isinstance(target.target, libcst.Name)
+        ]
+    
+
+# Collects all names which have to be defined to evaluate an expression
+class _NamesCollector(libcst.CSTVisitor):
+    def __init__(self):
+        super().__init__()
+        self.result = []
+
+    def visit_Name(self, node):
+        self.result.append(node.value)
+
+    def visit_Attribute(self, node):
+        node.value.visit(self)
+        return False
+    
+    def visit_Arg(self, node):
+        node.value.visit(self)
+        return False
+    
+    def visit_Lambda(self, node):
+        return False
-- 
2.43.0


From d00b55363b6b2a8a7c8b1de3e862797497729f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:47 +0000
Subject: [PATCH 49/76] fix: Emulator: MIDI messages which do not fit into the
 input buffer are kept for the next read

---
 .../python/wrappers/wrap_adafruit_midi.py     | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/wrappers/wrap_adafruit_midi.py b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
index d5c6a66..761a268 100644
--- a/web/htdocs/python/wrappers/wrap_adafruit_midi.py
+++ b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
@@ -1,18 +1,29 @@
 from js import externalRefs
 
 class WrapMidiInput:
+    def __init__(self):
+        # Largest amount of bytes which has been requested (size of the input buffer)
+        self._max_bytes = 0
+
     def read(self, num_bytes):
         if not "midiWrapper" in externalRefs.to_py() or not externalRefs.midiWrapper:
             return None
         
-        cnt = 0
+        self._max_bytes = max(self._max_bytes, num_bytes)
+
         buf = []
         while len(externalRefs.midiWrapper.messageQueue) > 0:
-            m = externalRefs.midiWrapper.messageQueue.pop(0)
-            msg = list(m)
+            msg = list(externalRefs.midiWrapper.messageQueue[0])
 
-            if cnt + len(msg) > num_bytes:
+            # Messages which do not fit into the rest of the buffer stay in the queue until the next call
+            if len(buf) + len(msg) > num_bytes and len(msg) <= self._max_bytes:
                 return buf
+
+            externalRefs.midiWrapper.messageQueue.pop(0)
+
+            # Messages which will never fit are ignored
+            if len(msg) > self._max_bytes:
+                continue
             
             self._monitor(msg)
             buf += msg
-- 
2.43.0


From 13b6611f589e4ce1b6bb626fbf7263eb31523303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:18 +0000
Subject: [PATCH 50/76] fix: MIDI bridge: Chunks are limited by their size in
 bytes and do not divide characters

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 41 +++++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index adf6c05..4caf92e 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -241,9 +241,7 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.ceil(data.length / chunkSize),
-            chunkSize: chunkSize, 
-            message: data,
+            chunks: this.#splitChunks(data, chunkSize),
             type: JMB_TRANSMISSION_TYPE_FILE
         });
     }
@@ -263,18 +261,46 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.ceil(message.length / chunkSize),
-            chunkSize: chunkSize,             
-            message: message,
+            chunks: this.#splitChunks(message, chunkSize),
             type: transmission_type
         });
     }
 
 
+    /**
+     * Splits a string into chunks of at most chunkSize bytes (utf-8). Characters are not divided, so a chunk can
+     * only be larger if it consists of one single character.
+     */
+    #splitChunks(str, chunkSize) {
+        const utf8Encode = new TextEncoder();
+        const ret = [];
+        let chunk = "";
+        let size = 0;
+
+        for (const char of str) {
+            const charSize = utf8Encode.encode(char).length;
+
+            if (size > 0 && size + charSize > chunkSize) {
+                ret.push(chunk);
+                chunk = "";
+                size = 0;
+            }
+
+            chunk += char;
+            size += charSize;
+        }
+
+        if (size > 0) ret.push(chunk);
+
+        return ret;
+    }
+
+
     /**
      * Adds a send transmission definition and sends the start message
      */
     async #startSendTransmission(transmission) {
+        transmission.amountChunks = transmission.chunks.length;
         transmission.nextChunk = 0;
         transmission.id = this.generateTransmissionId();
 
@@ -295,8 +321,7 @@ class JsMidiBridge {
      */
     async #sendNextChunk(transmission) {
         // Read data        
-        const chunk = transmission.message.slice(0, transmission.chunkSize);
-        transmission.message = transmission.message.slice(transmission.chunkSize);
+        const chunk = transmission.chunks[transmission.nextChunk];
         
         await this.#sendChunk(transmission, chunk);
 
-- 
2.43.0


From beaeca1dfd96c5e5026c99d5018f930fbb4b2c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:22 +0000
Subject: [PATCH 51/76] fix: MIDI bridge: Byte order marks are kept when
 receiving

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index 4caf92e..e048841 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -810,7 +810,7 @@ class JsMidiBridge {
 	 */ 
     bytes2string(data) {
 		const bytes = this.unpackBytes(data);
-		let utf8Decode = new TextDecoder();
+		let utf8Decode = new TextDecoder("utf-8", { ignoreBOM: true });
 		return utf8Decode.decode(new Uint8Array(bytes));
     }    
 
-- 
2.43.0


From 3c99fbe54da0ad28c6e4683a7766bd93763df5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 52/76] fix: MIDI bridge: Initial transmission ID stays in
 range

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index e048841..2ce3231 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -422,7 +422,7 @@ class JsMidiBridge {
             }
 
             // Initialize with random seed
-            JsMidiBridge.nextId = getRandomInt(0, 16777216);
+            JsMidiBridge.nextId = getRandomInt(0, 16777215);
         }
         
         const result = this.number2bytes(JsMidiBridge.nextId, JMB_TRANSMISSION_ID_LENGTH_FULLBYTES);
-- 
2.43.0


From 47aaf1c2e0ded6fd7ed7e197f8178ef91d790bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:29 +0000
Subject: [PATCH 53/76] fix: MIDI bridge: Requests of empty files are answered
 by an error

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index 2ce3231..6fb6087 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -235,7 +235,7 @@ class JsMidiBridge {
        
         // Check if file exists and see how many chunks we will need
         let data = await this.getFile(path);
-        if (data === null) {
+        if (!data) {
             throw new Error(path + " not found or empty");
         }
 
-- 
2.43.0


From f94fbbd96f9e575a59da61a6d4a3bc5e6864ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:46 +0000
Subject: [PATCH 54/76] fix: Virtual Kemper answers requests of unknown string
 parameters with strings

---
 .../clients/kemper/virtual/VirtualKemperParameterDefault.js | 4 ++--
 .../clients/kemper/virtual/VirtualKemperParameters.js       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js b/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
index 37f9b05..8e9a9b5 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
@@ -19,7 +19,7 @@ class VirtualKemperParameterDefault extends VirtualKemperParameter {
         )) return false;
 
         // Requested an unknown parameter: Create it
-        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)));
+        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)), this.value);
 
         // Send parameter value
         newParam.send();
@@ -35,7 +35,7 @@ class VirtualKemperParameterDefault extends VirtualKemperParameter {
         )) return false;
 
         // Set an unknown parameter: Create it
-        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)));
+        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)), this.value);
         if (!newParam.parse(message)) throw new Error("Failed to create parameter for message: ", message);
 
         return true;
diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js b/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
index 92f811e..670c081 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
@@ -79,15 +79,15 @@ class VirtualKemperParameters {
     }
 
     /**
-     * Returns the entry of the parameter (if known). Will be created if not present.
+     * Returns the entry of the parameter (if known). Will be created if not present (the default value determines the type).
      */
-    get(key) {
+    get(key, defaultValue = 0) {
         const jsonKey = key.getId();
 
         if (!this.#data.has(jsonKey)) {
             return this.init({ 
                 keys: new VirtualKemperParameterKeys({ send: key }), 
-                value: 0,
+                value: defaultValue,
                 // initiator: "auto"
             });
         }
-- 
2.43.0


From c089e6efc16484a22df3acf0a2de549ab5198d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 55/76] fix: Virtual Kemper loads rigs on program changes, and
 morphs only when the current rig is selected again

---
 .../clients/kemper/virtual/VirtualKemperClient.js    |  2 --
 .../kemper/virtual/VirtualKemperClientSetup.js       | 12 +++++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperClient.js b/web/htdocs/clients/kemper/virtual/VirtualKemperClient.js
index e25ca71..04b59b7 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperClient.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperClient.js
@@ -154,8 +154,6 @@ class VirtualKemperClient extends VirtualClient {
     setRigId(rigId) {
         this.parameters.get(new CCKey(32)).setValue(Math.floor(rigId / 128));
         this.parameters.get(new PCKey()).setValue(rigId % 128);
-
-        this.updateRig();
     }
 
     /**
diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperClientSetup.js b/web/htdocs/clients/kemper/virtual/VirtualKemperClientSetup.js
index 059f52d..a9ecc25 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperClientSetup.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperClientSetup.js
@@ -42,7 +42,11 @@ class VirtualKemperClientSetup {
             value: 0,
             parameterSets: [1, 2, 3, 4],
             noBuffer: true,
-            name: "Rig ID (PC)"
+            name: "Rig ID (PC)",
+            callback: function() {
+                // The program change completes the selection of a rig
+                that.#client.updateRig();
+            }
         });
 
         // Bank preselect
@@ -50,8 +54,6 @@ class VirtualKemperClientSetup {
         this.#client.parameters.get(new CCKey(47)).setValue(null);
         
         // Rig select
-        let lastRigId = null;
-
         function onRigIdChange(param, value) {
             const rig = param.options.keys.receive[0].control - 50;
             const bankPreselect = that.#client.parameters.get(new CCKey(47)).value;
@@ -63,6 +65,8 @@ class VirtualKemperClientSetup {
             const rigId = bank * 5 + rig;
 
             if (value == 1) {
+                const lastRigId = that.#client.getRigId();
+
                 // Update rig
                 that.#client.setRigId(rigId);
 
@@ -73,8 +77,6 @@ class VirtualKemperClientSetup {
                 if (lastRigId != rigId) {
                     that.#client.parameters.get(new NRPNKey([0, 11])).setValue(0);
                 }
-                
-                lastRigId = rigId;
             }
         }
 
-- 
2.43.0


From 48c51cb612cfdc3d293aedc899399bffcdba410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:29 +0000
Subject: [PATCH 56/76] fix: Editor imports hardware definitions if inputs.py
 only imports some of them by name

---
 web/htdocs/python/parser/PySwitchParser.py | 34 +++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/PySwitchParser.py b/web/htdocs/python/parser/PySwitchParser.py
index 25c7ea1..f82d3d4 100644
--- a/web/htdocs/python/parser/PySwitchParser.py
+++ b/web/htdocs/python/parser/PySwitchParser.py
@@ -188,7 +188,7 @@ class PySwitchParser:
         ]
 
         # Add all imports
-        visitor = AddImportsTransformer(self.__available_actions + self.__available_mappings + display_assignments)
+        visitor = AddImportsTransformer(self.__available_actions + self.__available_mappings + display_assignments + self._generate_hardware_imports())
         self.__csts["inputs_py"] = self.__csts["inputs_py"].visit(visitor)
 
     def _add_all_possible_imports_display(self):
@@ -351,6 +351,38 @@ class PySwitchParser:
             }
         ]
     
+    # Generates imports for all hardware definitions of the device (empty if inputs.py imports everything from there)
+    def _generate_hardware_imports(self):
+        if not self.hw_import_path or self._imports_all_hardware():
+            return []
+
+        with open(self.hw_import_path.replace(".", "/") + ".py") as f: content = f.read()
+
+        return [
+            {
+                "name": name,
+                "importPath": self.hw_import_path
+            }
+            for name in AssignmentNameExtractor().get(libcst.parse_module(content))
+        ]
+
+    # Returns if inputs.py has a star import of the hardware definitions
+    def _imports_all_hardware(self):
+        module = self.__csts["inputs_py"]
+
+        for statement in module.body:
+            if not isinstance(statement, libcst.SimpleStatementLine):
+                continue
+
+            for node in statement.body:
+                if not isinstance(node, libcst.ImportFrom) or not isinstance(node.names, libcst.ImportStar):
+                    continue
+
+                if node.module and module.code_for_node(node.module) == self.hw_import_path:
+                    return True
+
+        return False
+
     # Generates all imports for mappings
     def _generate_mapping_imports(self):
         # Load actions definitions from file
-- 
2.43.0


From bd6b71cf1c60ff2dfc2962fc0d0a8cffbf9c1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:53 +0000
Subject: [PATCH 57/76] fix: Presets and controllers can have any name
 (characters like + # ? % were lost in the URL)

---
 web/htdocs/js/Controller.js      | 2 +-
 web/htdocs/js/routing/Routing.js | 6 +++---
 web/htdocs/js/ui/PySwitchUI.js   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/web/htdocs/js/Controller.js b/web/htdocs/js/Controller.js
index 046111a..5b80fdf 100644
--- a/web/htdocs/js/Controller.js
+++ b/web/htdocs/js/Controller.js
@@ -251,6 +251,6 @@ class Controller {
      */
     getControllerUrl(portName) {
         if (!portName) portName = this.device.portName();
-        return encodeURI("controller/" + portName);
+        return "controller/" + encodeURIComponent(portName);
     }
 }
\ No newline at end of file
diff --git a/web/htdocs/js/routing/Routing.js b/web/htdocs/js/routing/Routing.js
index f696284..926ebbc 100644
--- a/web/htdocs/js/routing/Routing.js
+++ b/web/htdocs/js/routing/Routing.js
@@ -50,7 +50,7 @@ class Routing {
 
             // Load controller config
             this.get(/\#controller\/(.*)/, that.#queue.add(that.#executeRoute(async function() {
-                const portName = decodeURI(this.params['splat'][0]);
+                const portName = decodeURIComponent(this.params['splat'][0]);
                 
                 if (portName != "pyswitch-default") {
                     await that.#controller.loadConfiguration(
@@ -81,9 +81,9 @@ class Routing {
 
             // Load/browse preset configs
             this.get(/\#preset\/(.*)/, that.#queue.add(that.#executeRoute(async function() {
-                const id = decodeURI(this.params['splat'][0]);                    
+                const id = decodeURIComponent(this.params['splat'][0]);                    
                 await that.#controller.loadConfiguration(
-                    new PresetConfiguration(that.#controller, decodeURI(id))
+                    new PresetConfiguration(that.#controller, id)
                 );
             })));
 
diff --git a/web/htdocs/js/ui/PySwitchUI.js b/web/htdocs/js/ui/PySwitchUI.js
index 924d4dc..6ae23ca 100644
--- a/web/htdocs/js/ui/PySwitchUI.js
+++ b/web/htdocs/js/ui/PySwitchUI.js
@@ -373,7 +373,7 @@ class PySwitchUI {
                 new LocalPresetsProvider(this.#controller, {
                     onSelect: async function(entry) {
                         // Open existing preset
-                        that.#controller.routing.call(encodeURI("preset/" + entry.value));
+                        that.#controller.routing.call("preset/" + encodeURIComponent(entry.value));
                     }
                 }),
 
@@ -487,7 +487,7 @@ class PySwitchUI {
                         that.#controller.currentConfig.resetDirtyState();
 
                         that.notifications.message("Successfully saved preset " + presetId, "S");
-                        that.#controller.routing.call(encodeURI("preset/" + presetId));
+                        that.#controller.routing.call("preset/" + encodeURIComponent(presetId));
                     }
                 }),
 
-- 
2.43.0


From a002a2a40beed57178b92b20c3eda91136cbc295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:31 +0000
Subject: [PATCH 58/76] fix: Saving elsewhere does not mark the current
 configuration as changed if the save fails

---
 web/htdocs/js/model/configurations/Configuration.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/js/model/configurations/Configuration.js b/web/htdocs/js/model/configurations/Configuration.js
index bce6307..680f78a 100644
--- a/web/htdocs/js/model/configurations/Configuration.js
+++ b/web/htdocs/js/model/configurations/Configuration.js
@@ -90,7 +90,11 @@ class Configuration {
      */
     setDirty() {
         this.#dirty = true;
-        this.controller.ui.setDirty();
+
+        // Configurations which are only used to save data elsewhere must not mark the current one
+        if (!this.controller.currentConfig || this.controller.currentConfig === this) {
+            this.controller.ui.setDirty();
+        }
     }
 
     /**
-- 
2.43.0


From 4ca1c624e91b34d4b98e83e1815069532b22071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:22 +0000
Subject: [PATCH 59/76] fix: Renaming a preset asks before it replaces another
 preset

---
 web/htdocs/js/ui/presets/LocalPresetsProvider.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web/htdocs/js/ui/presets/LocalPresetsProvider.js b/web/htdocs/js/ui/presets/LocalPresetsProvider.js
index c72ea45..b4fd15e 100644
--- a/web/htdocs/js/ui/presets/LocalPresetsProvider.js
+++ b/web/htdocs/js/ui/presets/LocalPresetsProvider.js
@@ -70,6 +70,10 @@ class LocalPresetsProvider extends BrowserProvider {
                                         const newName = prompt("New name for " + entry.text + ":", entry.value);
                                         if (!newName) return;
 
+                                        if (newName != entry.value && that.#controller.presets.has(newName)) {
+                                            if (!confirm("Do you want to overwrite preset " + newName + "?")) return;
+                                        }
+
                                         const data = that.#controller.presets.get(entry.value);
                                         that.#controller.presets.delete(entry.value);
                                         that.#controller.presets.set(newName, data);
-- 
2.43.0


From 7a63f248a660a901b6e119e43bb10f485e83fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:53 +0000
Subject: [PATCH 60/76] fix: Saving to a directory does not leave it watched by
 a temporary configuration

---
 .../LocalFolderConfiguration.js               | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
index fc5d042..598046c 100644
--- a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
+++ b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
@@ -80,18 +80,22 @@ class LocalFolderConfiguration extends Configuration {
         const data = await this.get();
 
         // Stop observing, if running
+        const observing = !!this.#observer;
         await this.#unobserve();
 
-        // Write to the files in parallel
-        await Promise.all(
-            [
-                this.#writeFile(handles.inputs, data.inputs_py), 
-                this.#writeFile(handles.display, data.display_py)
-            ]
-        );
-
-        // Start observing again
-        await this.#observe(handles);
+        try {
+            // Write to the files in parallel
+            await Promise.all(
+                [
+                    this.#writeFile(handles.inputs, data.inputs_py), 
+                    this.#writeFile(handles.display, data.display_py)
+                ]
+            );
+
+        } finally {
+            // Start observing again (if this has not been loaded, it is just used for saving)
+            if (observing) await this.#observe(handles);
+        }
     }
 
     /**
-- 
2.43.0


From 8c31f8bfcecbae8e30accccc33029b50673a3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:06 +0000
Subject: [PATCH 61/76] fix: External changes of a local folder do not discard
 unsaved changes

---
 web/htdocs/js/model/configurations/LocalFolderConfiguration.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
index 598046c..6da3dbf 100644
--- a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
+++ b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
@@ -144,6 +144,9 @@ class LocalFolderConfiguration extends Configuration {
         try {
             const that = this;
             this.#observer = new FileSystemObserver(async (records, observer) => {
+                // Do not lose unsaved changes
+                if (that.isDirty()) return;
+
                 await that.#unobserve();
 
                 try {
-- 
2.43.0


From dc326b3e140ea7c3ff82c7095c5c21396eecdc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:45 +0000
Subject: [PATCH 62/76] fix: Opening a directory asks for unsaved changes of
 the current directory

---
 web/htdocs/js/ui/localfolder/LocalFolderSelection.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/htdocs/js/ui/localfolder/LocalFolderSelection.js b/web/htdocs/js/ui/localfolder/LocalFolderSelection.js
index 1eda2be..87341d4 100644
--- a/web/htdocs/js/ui/localfolder/LocalFolderSelection.js
+++ b/web/htdocs/js/ui/localfolder/LocalFolderSelection.js
@@ -36,6 +36,8 @@ class LocalFolderSelection {
     async call(controller) {
         if (controller.currentConfig instanceof LocalFolderConfiguration) {
             // Already at local folder config
+            if (!controller.ui.confirmIfDirty()) return;
+
             await controller.loadConfiguration(
                 new LocalFolderConfiguration(controller)
             )
-- 
2.43.0


From 310a28b2b8b7be28cf928aa091d732192f197134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:18 +0000
Subject: [PATCH 63/76] fix: Bridge of the previous controller is detached when
 connecting to another one

---
 web/htdocs/js/DeviceController.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/htdocs/js/DeviceController.js b/web/htdocs/js/DeviceController.js
index e419975..dace17b 100644
--- a/web/htdocs/js/DeviceController.js
+++ b/web/htdocs/js/DeviceController.js
@@ -56,6 +56,9 @@ class DeviceController {
      */
     async connect(portName) {
         if (this.#connection && this.#connection.name == portName) return;   // Already connected to the bridge
+
+        // Detach the bridge of the previous controller (two bridges on one port would interfere when coming back to it)
+        if (this.#connection) this.bridge.detach(this.#connection.bridge);
         this.#connection = null;
         
         this.#controller.ui.progress(0, "Connecting to controller " + portName);
-- 
2.43.0


From 10d920da9c4475790296fb01cdefdd3a5515b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:05 +0000
Subject: [PATCH 64/76] fix: Saving to a local folder waits for all files
 before it is watched again

---
 .../js/model/configurations/LocalFolderConfiguration.js    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
index 6da3dbf..364b363 100644
--- a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
+++ b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
@@ -84,14 +84,17 @@ class LocalFolderConfiguration extends Configuration {
         await this.#unobserve();
 
         try {
-            // Write to the files in parallel
-            await Promise.all(
+            // Write to the files in parallel. Wait for both even if one fails, we only may start observing again afterwards
+            const results = await Promise.allSettled(
                 [
                     this.#writeFile(handles.inputs, data.inputs_py), 
                     this.#writeFile(handles.display, data.display_py)
                 ]
             );
 
+            const failed = results.find((result) => result.status == "rejected");
+            if (failed) throw failed.reason;
+
         } finally {
             // Start observing again (if this has not been loaded, it is just used for saving)
             if (observing) await this.#observe(handles);
-- 
2.43.0


From 11e0b90b1e0506ae51e3469348d8a93cacbc2d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:05 +0000
Subject: [PATCH 65/76] fix: Local folder configurations are saved to the
 folder they have been loaded from

---
 .../js/model/configurations/LocalFolderConfiguration.js   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
index 364b363..0700334 100644
--- a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
+++ b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
@@ -3,6 +3,7 @@ class LocalFolderConfiguration extends Configuration {
     #name = 'Local Folder';
 
     #observer = null;
+    #dirHandle = null;      // Handle of the folder this has been loaded from
 
     constructor(controller) {
         super(controller, null);
@@ -43,8 +44,9 @@ class LocalFolderConfiguration extends Configuration {
             display_py = await Tools.fetch(encodeURI("templates/MIDICaptain 10/display.py"));
         }
 
-        // Set config name
+        // Set config name and remember the folder (another one might get selected before saving)
         this.#name = handles.dir.name;
+        this.#dirHandle = handles.dir;
 
         // Start watching the files
         await this.#observe(handles);
@@ -105,9 +107,9 @@ class LocalFolderConfiguration extends Configuration {
      * Returns the file handles, or throws an exception
      */
     async #getHandles(create = false) {
-        // Retrieve dir handle from indexedDB (must have been set before by the "Open" dialog, as
+        // If not yet loaded, retrieve dir handle from indexedDB (must have been set before by the "Open" dialog, as
         // the File API does require this to be triggered by an user action)
-        const dirHandle = await (new LocalFolderSelection()).getHandle();
+        const dirHandle = this.#dirHandle || await (new LocalFolderSelection()).getHandle();
 
         if (!dirHandle) {
             throw new Error("Please open a local folder first.");
-- 
2.43.0


From 709345941daf76625b1597d731ff6236b035e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:18 +0000
Subject: [PATCH 66/76] fix: Saving to the directory which is already open
 saves it in place

---
 .../configurations/LocalFolderConfiguration.js    |  7 +++++++
 web/htdocs/js/ui/PySwitchUI.js                    | 15 +++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
index 0700334..d69e1cc 100644
--- a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
+++ b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
@@ -71,6 +71,13 @@ class LocalFolderConfiguration extends Configuration {
         return this.#name;
     }
     
+    /**
+     * Has this been loaded from the passed folder?
+     */
+    async isLoadedFrom(dirHandle) {
+        return !!this.#dirHandle && await this.#dirHandle.isSameEntry(dirHandle);
+    }
+
     /**
      * Save the data to the location of the configuration
      */
diff --git a/web/htdocs/js/ui/PySwitchUI.js b/web/htdocs/js/ui/PySwitchUI.js
index 6ae23ca..4ccd16a 100644
--- a/web/htdocs/js/ui/PySwitchUI.js
+++ b/web/htdocs/js/ui/PySwitchUI.js
@@ -509,11 +509,18 @@ class PySwitchUI {
                         if (!await sel.select()) return;
 
                         // Save the configuration
-                        const dummyConfig = new LocalFolderConfiguration(that.#controller);
-                        dummyConfig.set(data);
-                        await dummyConfig.save();
+                        const currentConfig = that.#controller.currentConfig;
+                        if (currentConfig instanceof LocalFolderConfiguration && await currentConfig.isLoadedFrom(await sel.getHandle())) {
+                            // Already at this directory, which is watched by the configuration
+                            await currentConfig.save();
 
-                        that.#controller.currentConfig.resetDirtyState();
+                        } else {
+                            const dummyConfig = new LocalFolderConfiguration(that.#controller);
+                            dummyConfig.set(data);
+                            await dummyConfig.save();
+
+                            currentConfig.resetDirtyState();
+                        }
 
                         that.notifications.message("Successfully saved the configuration to the local folder", "S");
                         
-- 
2.43.0


From dfb0b50ba5b2712c78fdcb22aece34fb48878851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:56 +0000
Subject: [PATCH 67/76] fix: Client scans still running do not override a
 client chosen meanwhile

---
 web/htdocs/js/ClientController.js | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/web/htdocs/js/ClientController.js b/web/htdocs/js/ClientController.js
index a1b9dcb..c22d56e 100644
--- a/web/htdocs/js/ClientController.js
+++ b/web/htdocs/js/ClientController.js
@@ -5,6 +5,8 @@ class ClientController {
 
     #controller = null;
 
+    #scanId = 0;        // ID of the current scan (older ones must not connect anymore)
+
     state = null;
     current = null;     // Name of the currently connected client
 
@@ -20,6 +22,9 @@ class ClientController {
     async init(config) {
         if (!config) return;
 
+        // Discard scans still running
+        ++this.#scanId;
+
         const savedClient = this.state.get("selectedClient");
 
         if (savedClient == "auto" || !savedClient) {
@@ -34,6 +39,7 @@ class ClientController {
      */
     async #scan(config) {
         const that = this;
+        const scanId = this.#scanId;
 
         await this.#controller.midi.scan(
             // connect
@@ -48,12 +54,16 @@ class ClientController {
                     await attempt.reject();
                 });
 
+                if (scanId != that.#scanId) return;
+
                 //console.log("Found client: ", connection);
                 await that.#connect(connection.name, config);
             },
 
             // onFailure
             async function() {
+                if (scanId != that.#scanId) return;
+
                 await that.#connect("virtual-" + (await ClientFactory.estimateClient(config)), config);
             }
         );
-- 
2.43.0


From de7896990d062cc1090d6d31c17c137472d9ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:59 +0000
Subject: [PATCH 68/76] fix: Ports which cannot be used do not block the client
 detection

---
 web/htdocs/js/ClientController.js | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/js/ClientController.js b/web/htdocs/js/ClientController.js
index c22d56e..676a792 100644
--- a/web/htdocs/js/ClientController.js
+++ b/web/htdocs/js/ClientController.js
@@ -93,6 +93,8 @@ class ClientController {
         const output = findPort(this.#controller.midi.midiAccess.outputs);
 
         return new Promise(async function(resolve, reject) {
+            let listener = null;
+
             // Get a detector for the config
             const clientId = await ClientFactory.estimateClient(config);
             const client = ClientFactory.getInstance(clientId);
@@ -124,9 +126,6 @@ class ClientController {
                 reject(new Error("Failed to connect to " + output.name)); 
             }
 
-            // Use the detector to check if there is a client listening
-            let listener = detector ? (await detector.test(that.#controller.midi, input, output, doResolve)) : null;
-
             // Timeout
             const timeout = setTimeout(doReject, timeoutMillis);
 
@@ -136,6 +135,16 @@ class ClientController {
                     reject: doReject
                 });
             }            
+
+            // Use the detector to check if there is a client listening
+            try {
+                listener = detector ? (await detector.test(that.#controller.midi, input, output, doResolve)) : null;
+
+            } catch (e) {
+                // The port cannot be used
+                console.error(e);
+                doReject();
+            }
         });
     }
 
-- 
2.43.0


From a2107e5ea9f30f678cce36a489883d069ba60d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:03 +0000
Subject: [PATCH 69/76] fix: Emptied settings fields reset the setting

---
 web/htdocs/js/model/CommunicationSettings.js | 8 ++++++--
 web/htdocs/js/model/ConfigFile.js            | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/js/model/CommunicationSettings.js b/web/htdocs/js/model/CommunicationSettings.js
index 8a32603..dd5ebc8 100644
--- a/web/htdocs/js/model/CommunicationSettings.js
+++ b/web/htdocs/js/model/CommunicationSettings.js
@@ -42,12 +42,16 @@ class CommunicationSettings {
     }
 
     /**
-     * Sets a single value
+     * Sets a single value (NaN, for example of an empty field, resets it to the default)
      */
     setAttribute(name, value) {
         const data = this.get();
 
-        data[name] = value;
+        if (Number.isNaN(value)) {
+            delete data[name];
+        } else {
+            data[name] = value;
+        }
         
         this.set(data);
     }
diff --git a/web/htdocs/js/model/ConfigFile.js b/web/htdocs/js/model/ConfigFile.js
index 9159c7e..7132fee 100644
--- a/web/htdocs/js/model/ConfigFile.js
+++ b/web/htdocs/js/model/ConfigFile.js
@@ -58,12 +58,16 @@ class ConfigFile {
     }
 
     /**
-     * Sets a single value
+     * Sets a single value (NaN, for example of an empty field, resets it to the default)
      */
     setAttribute(name, value) {
         const data = this.get();
 
-        data[name] = value;
+        if (Number.isNaN(value)) {
+            delete data[name];
+        } else {
+            data[name] = value;
+        }
         
         this.set(data);
     }
-- 
2.43.0


From c9b2ddc6e480761a369848abf74ae9cad43b6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:07 +0000
Subject: [PATCH 70/76] fix: Settings equal to a default are kept when
 config.py is rendered

---
 web/htdocs/js/model/ConfigFile.js | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/web/htdocs/js/model/ConfigFile.js b/web/htdocs/js/model/ConfigFile.js
index 7132fee..13d997e 100644
--- a/web/htdocs/js/model/ConfigFile.js
+++ b/web/htdocs/js/model/ConfigFile.js
@@ -82,14 +82,6 @@ class ConfigFile {
         const that = this;
         const done = new Map();
 
-        /**
-         * Is value a known default?
-         */
-        function isDefault(parameter, value) {
-            if (!that.#defaults.hasOwnProperty(parameter)) return false;
-            return that.#defaults[parameter] == value;
-        }
-
         /**
          * Convert to python
          */
@@ -100,14 +92,13 @@ class ConfigFile {
         }
 
         /**
-         * Replace one token
+         * Replace one token (commented out if the parameter has not been set by the user)
          */
-        function replaceToken(parameter) {
-            const valueUnconverted = that.getAttribute(parameter);
-            const value = convertValue(valueUnconverted);
+        function replaceToken(parameter, isSet) {
+            const value = convertValue(that.getAttribute(parameter));
             const valueStr = '"' + parameter + '": ' + value;
             done.set(parameter, true);
-            template = template.replace('%' + parameter + '%', isDefault(parameter, valueUnconverted) ? ("#" + valueStr) : valueStr)
+            template = template.replace('%' + parameter + '%', isSet ? valueStr : ("#" + valueStr))
         }
 
         // Get data
@@ -115,13 +106,13 @@ class ConfigFile {
 
         // Set all fields of the data
         Object.keys(data).forEach(function(key) {
-            replaceToken(key)
+            replaceToken(key, true)
         });
 
         // Set all defaults where no value has been set
         Object.keys(this.#defaults).forEach(function(key) {
             if (done.has(key) && done.get(key)) return;
-            replaceToken(key)
+            replaceToken(key, false)
         });
 
         return template;
-- 
2.43.0


From abd0a06782a9d8cb64aaea339db287ce4658b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:32 +0000
Subject: [PATCH 71/76] fix: Applying the action dialog keeps all parameters
 the user did not change

---
 web/htdocs/js/ui/parser/ActionProperties.js | 29 ++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/js/ui/parser/ActionProperties.js b/web/htdocs/js/ui/parser/ActionProperties.js
index 28e080b..3c9feba 100644
--- a/web/htdocs/js/ui/parser/ActionProperties.js
+++ b/web/htdocs/js/ui/parser/ActionProperties.js
@@ -15,6 +15,7 @@ class ActionProperties {
     #encoderProps = null;
     #advancedRows = null;
     #advancedLevel = 0;
+    #loaded = null;       // Values of the inputs as they have been loaded from an existing action, by parameter name
 
     constructor(controller, parserFrontend, actionDefinition, oldProperties = null, messages = []) {
         this.controller = controller;
@@ -257,6 +258,15 @@ class ActionProperties {
     createActionDefinition() {
         const that = this;
 
+        /**
+         * Returns the loaded definition ({ argument, input }) for the parameter if the user did not change it, or null if he did.
+         */
+        function getUnchanged(param, value) {
+            const loaded = that.#loaded ? that.#loaded.get(param.name) : null;
+            
+            return (loaded && loaded.input == JSON.stringify(value)) ? loaded : null;
+        }
+
         function getName() {
             if (that.actionDefinition.name == "PagerAction.proxy") {
                 const pagerProxy = that.pagerProxy();
@@ -278,15 +288,23 @@ class ActionProperties {
         
                     const value = that.#getInputValue(input, param);
 
+                    // Parameters which have not been changed stay as they are
+                    const unchanged = getUnchanged(param, value);
+                    if (unchanged && unchanged.argument) return true;
+                    if (unchanged && param.hasOwnProperty("default")) return false;
+
                     return !param.hasOwnProperty("default") || (value != param.default);
                 })
                 .map((param) => {
                     const input = that.inputs.get(param.name);
                     if (!input) throw new Error("No input for param " + param.name + " found");
         
+                    const value = that.#getInputValue(input, param);
+                    const unchanged = getUnchanged(param, value);
+
                     return {
                         name: param.name,
-                        value: that.#getInputValue(input, param)
+                        value: (unchanged && unchanged.argument) ? unchanged.argument.value : value
                     };
                 })
         }
@@ -363,6 +381,15 @@ class ActionProperties {
         }
 
         await this.update();
+
+        // Remember the loaded values, to be able to keep everything the user does not change
+        this.#loaded = new Map();
+        for (const param of this.actionDefinition.parameters) {
+            this.#loaded.set(param.name, {
+                argument: args.find((arg) => arg.name == param.name),
+                input: JSON.stringify(this.getParameterValue(param.name))
+            });
+        }
     }
 
     /**
-- 
2.43.0


From 7b24f26075128a3989e4cf0094163a4f2e69dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:47 +0000
Subject: [PATCH 72/76] fix: Settings of inputs which are not configured yet
 can be changed

---
 web/htdocs/js/ui/parser/InputSettings.js      | 22 ++++++++++++++++---
 .../js/ui/parser/ParserFrontendInput.js       | 16 ++++++++++++--
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/web/htdocs/js/ui/parser/InputSettings.js b/web/htdocs/js/ui/parser/InputSettings.js
index 7e7ba0b..7787a9f 100644
--- a/web/htdocs/js/ui/parser/InputSettings.js
+++ b/web/htdocs/js/ui/parser/InputSettings.js
@@ -5,11 +5,17 @@ class InputSettings extends ParameterList {
     
     #definition = null;
     #input = null;
+    #createInput = null;
 
-    constructor(controller, definition, input) {
+    /**
+     * If the input is not configured yet (input is null), createInput is called to create it before something is changed.
+     * createInput() => ParserInput
+     */
+    constructor(controller, definition, input, createInput = null) {
         super(controller)
         this.#definition = definition;
         this.#input = input;
+        this.#createInput = createInput;
     }
 
     /**
@@ -33,7 +39,7 @@ class InputSettings extends ParameterList {
                 comment: "This option keeps repeating the hold actions again and again as long as the switch is held.",
                 value: that.#input ? that.#input.holdRepeat() : false,
                 onChange: async function(value) {
-                    that.#input.setHoldRepeat(value);
+                    (await that.#getInput()).setHoldRepeat(value);
 
                     await that.controller.restart({
                         message: "none"
@@ -49,7 +55,7 @@ class InputSettings extends ParameterList {
                     min: 0
                 },
                 onChange: async function(value) {
-                    that.#input.setHoldTimeMillis(value);
+                    (await that.#getInput()).setHoldTimeMillis(value);
 
                     await that.controller.restart({
                         message: "none"
@@ -64,4 +70,14 @@ class InputSettings extends ParameterList {
                 break;
         }
     }
+
+    /**
+     * Returns the input handler, creates it if necessary
+     */
+    async #getInput() {
+        if (!this.#input) {
+            this.#input = await this.#createInput();
+        }
+        return this.#input;
+    }
 }
\ No newline at end of file
diff --git a/web/htdocs/js/ui/parser/ParserFrontendInput.js b/web/htdocs/js/ui/parser/ParserFrontendInput.js
index 7b6985c..c88f753 100644
--- a/web/htdocs/js/ui/parser/ParserFrontendInput.js
+++ b/web/htdocs/js/ui/parser/ParserFrontendInput.js
@@ -529,7 +529,10 @@ class ParserFrontendInput {
         const props = new InputSettings(
             this.#controller,
             this.definition,
-            this.input
+            this.input,
+            async function() {
+                return that.#getInput();
+            }
         );
 
         const propsContent = await props.get();
@@ -664,11 +667,20 @@ class ParserFrontendInput {
      * Sets actions on the input, which will be created if not existent.
      */
     async #setActions(actions, hold, noUpdate) {
+        const input = await this.#getInput();
+
+        input.setActions(actions, hold, noUpdate);
+    }
+
+    /**
+     * Returns the input handler, which will be created if not existent.
+     */
+    async #getInput() {
         if (!this.input) {
             // Create input
             this.input = await this.#parserFrontend.parser.input(this.definition.data.name, true);
         }
 
-        this.input.setActions(actions, hold, noUpdate);
+        return this.input;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 7db5153cee0beccf05b8891b502170494dffd82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:51 +0000
Subject: [PATCH 73/76] fix: Positional arguments do not break the check of
 display labels

---
 web/htdocs/js/model/parser/ParserChecks.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/js/model/parser/ParserChecks.js b/web/htdocs/js/model/parser/ParserChecks.js
index d6922a4..f2081c3 100644
--- a/web/htdocs/js/model/parser/ParserChecks.js
+++ b/web/htdocs/js/model/parser/ParserChecks.js
@@ -158,7 +158,7 @@ class ParserChecks {
                         if (all) {
                             ret.push(action);
                         } else {
-                            if (!arg.name.includes("preview") && !arg.name.includes("change")) {  // TODO put to Meta
+                            if (!arg.name || (!arg.name.includes("preview") && !arg.name.includes("change"))) {  // TODO put to Meta
                                 ret.push(action);
                             }
                         }
-- 
2.43.0


From 8920ea5e5ec508d2fa451e4601dc605eadbd6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:54 +0000
Subject: [PATCH 74/76] fix: Actions can be dragged to any place of another
 input

---
 web/htdocs/js/ui/parser/ParserFrontendInput.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/js/ui/parser/ParserFrontendInput.js b/web/htdocs/js/ui/parser/ParserFrontendInput.js
index c88f753..40dbd33 100644
--- a/web/htdocs/js/ui/parser/ParserFrontendInput.js
+++ b/web/htdocs/js/ui/parser/ParserFrontendInput.js
@@ -242,9 +242,9 @@ class ParserFrontendInput {
                 });
 
                 if (result) {
-                    // Get target item
-                    const target = $(item.getElement()).parent().children().eq(result.index);
-                    if (target.find('.fixed').length > 0) {
+                    // Get target item (can be in another grid)
+                    const target = result.grid.getItems()[result.index];
+                    if (target && $(target.getElement()).find('.fixed').length > 0) {
                         return false;
                     }
                 }
-- 
2.43.0


From 58b49cf9c7bfbde229b3ad3ef999b57579b26d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:58 +0000
Subject: [PATCH 75/76] fix: Hold time zero and emptied hold time in the input
 settings

---
 web/htdocs/js/model/parser/ParserInput.js       | 10 ++++++++--
 web/htdocs/js/model/parser/ParserTreeElement.js |  9 +++++++++
 web/htdocs/js/ui/parser/InputSettings.js        |  4 ++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/js/model/parser/ParserInput.js b/web/htdocs/js/model/parser/ParserInput.js
index 20a9580..a8308c5 100644
--- a/web/htdocs/js/model/parser/ParserInput.js
+++ b/web/htdocs/js/model/parser/ParserInput.js
@@ -53,12 +53,18 @@ class ParserInput extends ParserTreeElement {
     }
 
     /**
-     * Sets the hold time in milliseconds
+     * Sets the hold time in milliseconds. If no number is passed (for example from an empty field), the default is used.
      */
     setHoldTimeMillis(htm) {
         this.checkValid()
 
-        this.setArgument("holdTimeMillis", "" + parseInt(htm));
+        const millis = parseInt(htm);
+        if (isNaN(millis)) {
+            this.removeArgument("holdTimeMillis");
+        } else {
+            this.setArgument("holdTimeMillis", "" + millis);
+        }
+        
         this.parser.updateConfig();
     }
 
diff --git a/web/htdocs/js/model/parser/ParserTreeElement.js b/web/htdocs/js/model/parser/ParserTreeElement.js
index fd64dfd..740d75c 100644
--- a/web/htdocs/js/model/parser/ParserTreeElement.js
+++ b/web/htdocs/js/model/parser/ParserTreeElement.js
@@ -60,4 +60,13 @@ class ParserTreeElement {
             }
         )
     }
+
+    /**
+     * Removes a specific argument, if existent.
+     */
+    removeArgument(name) {
+        this.checkValid()
+
+        this.data.arguments = this.data.arguments.filter((arg) => arg.name != name);
+    }
 }
\ No newline at end of file
diff --git a/web/htdocs/js/ui/parser/InputSettings.js b/web/htdocs/js/ui/parser/InputSettings.js
index 7787a9f..84ffa97 100644
--- a/web/htdocs/js/ui/parser/InputSettings.js
+++ b/web/htdocs/js/ui/parser/InputSettings.js
@@ -32,7 +32,7 @@ class InputSettings extends ParameterList {
         const that = this;
 
         async function getSwitchOptions() {
-            const holdTimeMillis = that.#input ? that.#input.holdTimeMillis() : 0
+            const holdTimeMillis = that.#input ? that.#input.holdTimeMillis() : null
     
             await that.createBooleanInput({
                 name: "Hold Repeat",
@@ -50,7 +50,7 @@ class InputSettings extends ParameterList {
             await that.createNumericInput({
                 name: "Hold Time", 
                 comment: "Amount of time you have to press the switch for the hold actions to be triggered (Milliseconds).",
-                value: holdTimeMillis ? holdTimeMillis : 600,
+                value: (holdTimeMillis !== null) ? holdTimeMillis : 600,
                 range: {
                     min: 0
                 },
-- 
2.43.0


From f332be384750d1dbca98669750b6b456ae21cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:02 +0000
Subject: [PATCH 76/76] fix: Pages are removed where the button has been
 clicked

---
 web/htdocs/js/ui/parser/PagesList.js | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/web/htdocs/js/ui/parser/PagesList.js b/web/htdocs/js/ui/parser/PagesList.js
index d15fb34..c25b55b 100644
--- a/web/htdocs/js/ui/parser/PagesList.js
+++ b/web/htdocs/js/ui/parser/PagesList.js
@@ -61,8 +61,9 @@ class PagesList {
      */
     #createItem(page) {
         const that = this;
-        
-        return $('<div class="page-item" />').append(
+        const element = $('<div class="page-item" />');
+
+        return element.append(
             $('<div class="page-item-content" />')
             .append(
                 // Action
@@ -89,7 +90,7 @@ class PagesList {
                 $('<span class="button remove-page fas fa-times" data-toggle="tooltip" title="Remove page" />')
                 .on('click', async function() {
                     try {
-                        await that.#removePage(page.id);
+                        await that.#removePage(element);
 
                     } catch (e) {
                         that.#controller.handle(e);
@@ -103,11 +104,19 @@ class PagesList {
      * Returns the pages list value
      */
     get() {
+        return this.#getPages(() => true);
+    }
+
+    /**
+     * Returns the pages of all elements matching the passed filter: (element) => bool
+     */
+    #getPages(filter) {
         if (!this.#grid) return [];
         const items = this.#grid.getItems();
 
         return items
             .filter((item) => !$(item.getElement()).find('.add-page').length)
+            .filter((item) => filter($(item.getElement())))
             .map((item) => {
                 const el = $(item.getElement());
                 const ret = {
@@ -146,12 +155,10 @@ class PagesList {
     }
 
     /**
-     * Remove page by ID
+     * Remove page by its DOM element
      */
-    async #removePage(id) {
-        const pages = await this.get();
-
-        await this.set(pages.filter((item) => item.id != id));
+    async #removePage(element) {
+        await this.set(this.#getPages((el) => el[0] != element[0]));
     }
 
     /**
-- 
2.43.0

