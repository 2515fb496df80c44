"""The listed properties. tools/gen.py writes properties.jsonl and MANIFEST.json from this file."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), level_note=None, technique=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        _level_note=level_note, _technique=technique))


L = "content/lib/pyswitch/"
K = L + "clients/kemper/"
LO = L + "clients/local/"

prop("C01", "MIDI routing delivers every message to exactly its routed targets",
     "For every set of routings, each message received on a MIDI port is delivered exactly once, unchanged and in order of arrival, to every target routed from that port (other ports as well as the application), and to nothing else. Everything the application sends goes exactly once to every port routed from the application. Messages of unknown type or without a valid status are never forwarded to another port and never stop the processing.",
     ["configurations", "histories"], "all routing sets over several ports (merge, distribute, through, application and through on the same source), all interleavings of arriving messages and polls",
     "The tests use five fixed routing sets with one or two messages each; none routes one source both through and to the application.",
     [L + "controller/midi.py", L + "hardware/adafruit/AdafruitUsbMidiDevice.py", L + "hardware/adafruit/AdafruitDinMidiDevice.py"],
     [("split of the routings by role and one read per source and poll", L + "controller/midi.py MidiController")],
     observe=["send()/receive() of the ports and of the MIDI controller"])

prop("C02", "Parameter values survive the way to the wire and back",
     "Setting a parameter to any value in its range (0..16383 for NRPN, 0..127 for CC and PC) puts exactly one well formed message per configured set message on the wire that carries exactly that value at the parameter's address, and a device answer carrying a value makes exactly that value the parameter's value. Two part parameters (like the rig ID) take the value high part * 128 + low part, only when both parts have arrived in order; string parameters take the text of the answer without its terminator.",
     ["inputs", "histories"], "all values of all supported message types, all mappings the Kemper and generic clients define, arbitrary noise between the parts",
     "The tests encode a handful of values with mocked MIDI message classes; nothing checks all 16384 values, the wire bytes, or part ordering under noise.",
     [L + "controller/client.py", K + "__init__.py", K + "mappings"],
     [("parse_against / set_value codecs", L + "controller/client.py ClientParameterMapping"), ("two part assembly", L + "controller/client.py ClientTwoPartParameterMapping")],
     observe=["mapping.value, bytes sent"])

prop("C03", "Incoming messages change only the parameters they address",
     "An incoming MIDI message changes the value of a parameter only if it is the answer of that parameter: same manufacturer, function, address page and address number for system exclusive, same controller number for control changes, a program change for program change answers. All other parameters keep their values, their listeners are not called, and no message of any type or content stops the processing.",
     ["inputs", "histories"], "arbitrary valid MIDI messages (including truncated and foreign system exclusive ones) against any set of observed parameters",
     "Tests feed single matching and near-miss messages to one mapping; the property quantifies over all messages and all sets of registered mappings.",
     [L + "controller/client.py", K + "__init__.py", K + "mappings"],
     [("address comparison", L + "controller/client.py ClientParameterMapping.parse_against")],
     observe=["mapping.value of all mappings, listener calls"])

prop("C04", "Every parameter request is answered or given up exactly once",
     "While a request for a parameter is pending, further requests for it send nothing more to the device; when its answer arrives every requester is informed once with the new value and the request is over, so that later answers inform nobody until it is requested again. If no answer arrives, every requester is told once that the request has been given up, not before the configured request lifetime has passed and in any case when messages are processed after 1.5 times the lifetime (plus one processing interval), and the parameter can then be requested again.",
     ["histories", "schedules", "fault_sequences"], "all interleavings of requests by several parties, answers, lost answers and time, for any request lifetime",
     "Tests script a few fixed sequences with one mapping and a mocked counter; loss, duplication and interleaving of several parameters and requesters are not explored.",
     [L + "controller/client.py"],
     [("pending request list, lifetime counter and cleanup", L + "controller/client.py Client, ClientRequest")],
     state=[("pending requests", "requests waiting for an answer", L + "controller/client.py Client.requests")],
     observe=["messages sent, listener calls"])

prop("C05", "Dependent parameters are re-read exactly when their dependency changes",
     "A parameter which depends on another one (for example the rig name on the rig date) is requested from the device when the value of the dependency has changed since it was last seen, and is not requested while it stays the same. After every such change, every display which asked for the dependent parameter is informed about the new value.",
     ["histories", "fault_sequences"], "histories of dependency changes, unchanged answers, lost answers, and several requesters of the same or of different dependent parameters",
     "The tests cover one dependent mapping with one listener.",
     [L + "controller/client.py", K + "__init__.py"],
     [("dependency listener", L + "controller/client.py Client.request")],
     observe=["requests sent, listener calls"])

prop("C06", "Bidirectional session: start, keep alive, loss and recovery",
     "While offline the controller sends an initialization beacon (carrying the parameter set, the flags and the time lease) at most every 5 seconds and keeps doing so; it is considered connected from the first sense message after a beacon was sent until no sense message has come in for 1.5 seconds, and shows green exactly while connected and red otherwise. While connected it sends a non-initializing beacon once per half time lease and at no other time. Other messages, including other system exclusive messages, neither establish nor keep the connection.",
     ["histories", "schedules", "fault_sequences", "configurations"], "all timings of updates and sense messages, connection losses of any length, foreign messages, any time lease, both tuner settings",
     "The tests step through one connect/disconnect script with a mocked time; the property quantifies over all schedules.",
     [K + "__init__.py", L + "ui/elements.py"],
     [("protocol state machine and its three period counters", K + "__init__.py KemperBidirectionalProtocol")],
     state=[("protocol state", "offline or running", K + "__init__.py")],
     observe=["beacons sent, protocol colour, state indicator on the display"])

prop("C07", "Bidirectional parameters: no polling, local feedback, reset on loss",
     "Parameters covered by the bidirectional parameter set are never polled with requests; every message the device sends for them updates all their displays, any number of times. Setting such a parameter immediately informs all its displays with the value that was set. When the connection has been lost, all of them are reset to unknown and their displays are informed, and they show the values again when the device sends them anew.",
     ["histories", "fault_sequences"], "histories of sets, device messages, connection losses and re-connections over all bidirectional parameters and several observers",
     "Tests check single steps of one mapping with a mocked protocol.",
     [L + "controller/client.py", K + "__init__.py"],
     [("register without request, feedback, notify_connection_lost", L + "controller/client.py BidirectionalClient")],
     observe=["messages sent, listener calls, values"])

prop("C08", "The main loop starves neither inputs nor MIDI, and keeps message order",
     "In every pass of the main loop all inputs are polled before each MIDI message is taken and at least once; at most the configured maximum of consecutive MIDI messages (plus one) is processed per receive phase, no message is lost, and they are handled in order of arrival. Periodic updates of all components happen once per update interval, not more often. Messages which are waiting at startup are discarded exactly when buffer clearing is enabled.",
     ["schedules", "histories", "configurations"], "all arrival patterns of messages, tick timings, update intervals, message limits and switch changes between any two polls",
     "Tests check fixed message counts with mocked controllers; interleaving of input changes with message bursts is not explored.",
     [L + "controller/controller.py"],
     [("receive loop with the counter, period counter of the updates", L + "controller/controller.py Controller.tick")],
     observe=["order of input polls and MIDI reads, update calls"])

prop("C09", "Switch presses are dispatched to the right actions exactly once",
     "Without hold actions, each press pushes every enabled action of the switch once and each release releases it once, in the configured order, however often the switch is polled in between. With hold actions, a press shorter than the hold time triggers push and release of the normal actions once on release and no hold action, a longer one triggers push and release of the hold actions once while still held (again after every further hold time if repeating is enabled) and no normal action. Disabled actions are not triggered.",
     ["histories", "schedules", "configurations"], "all press/release timings against all poll timings, any hold time, with and without repeat, any number of actions with changing enabled states",
     "Tests use fixed press scripts with mocked counters; timing boundaries and histories of presses are not explored.",
     [L + "controller/inputs.py"],
     [("press edge detection, hold period", L + "controller/inputs.py SwitchController.process")],
     observe=["push/release calls of the actions"])

prop("C10", "Push button modes follow their documented state machines",
     "For every history of presses, releases, hold durations and state feedback from the device, the on/off state of a push button action is the one its documented mode prescribes: enable, disable, latch, momentary, inverse momentary, momentary-or-latch by hold time, one shot and no change. Each change of state caused by the user triggers exactly one set operation, state feedback from the device triggers none.",
     ["histories", "schedules", "configurations"], "all modes, press durations around the hold time, interleaved device feedback and resets",
     "Each mode is tested with one scripted sequence; interleavings with device feedback are not.",
     [L + "controller/actions/__init__.py"],
     [("mode handling in push and release", L + "controller/actions/__init__.py PushButtonAction")],
     observe=["state of the action, set operations triggered"])

prop("C11", "On/off actions send the configured values and follow the device",
     "Switching an on/off parameter action on or off sends exactly its configured enable or disable value(s) to the enable or disable mapping, where an 'auto' disable value restores the value the device had reported before the action was switched on. The state shown follows each new value the device reports, by the configured comparison with the reference value, and unknown values show as off. As long as an 'auto' value is not known, nothing is sent for it and the state of the device stays shown.",
     ["histories", "inputs", "configurations"], "all comparison modes, reference, enable and disable values (single, lists, auto), with histories of device values and presses",
     "Tests cover each comparison mode with one to three values; histories of device changes and presses with auto values are not.",
     [L + "controller/callbacks/__init__.py", LO + "actions/binary_switch.py"],
     [("state_changed_by_user, evaluate_value", L + "controller/callbacks/__init__.py BinaryParameterCallback")],
     observe=["messages sent, action state"])

prop("C12", "Switch LEDs are divided among the enabled actions without overlap",
     "At any time the LEDs of a switch are divided among its enabled LED-using actions in order: a single one uses all LEDs, with fewer actions than LEDs the first action takes the surplus, with more actions than LEDs the surplus actions use none. Setting the colour or brightness of an action changes exactly its LEDs and no LED of any other action or switch.",
     ["configurations", "histories"], "all numbers of LEDs and actions, all combinations of LED usage and enabled states, including changes at run time",
     "Tests enumerate a few fixed combinations.",
     [L + "controller/actions/__init__.py", L + "controller/inputs.py"],
     [("LED segment calculation", L + "controller/actions/__init__.py Action.switch_color / switch_brightness")],
     observe=["LED strip contents"])

prop("C13", "LEDs and labels show the colour, brightness and text of the action state",
     "For on/off actions the LEDs show the (static or computed) colour times the configured on or off brightness, each component truncated to an integer within 0..255, and the assigned label shows the same colour dimmed by the on or off factor and the text of the state. Actions without device feedback always show as off in colour unless they are configured to use their internal state. This is so after every change of state or colour, and equally after the displays have been reset. Fixed text displays show their configured text and colours.",
     ["configurations", "histories", "inputs"], "all colours, brightness and dim factor settings (action, global defaults, on/off swap), texts, device value histories and resets",
     "Tests check chosen colours and default factors in fixed sequences.",
     [L + "controller/callbacks/__init__.py", L + "controller/inputs.py", L + "colors.py"],
     [("update_displays with change detection", L + "controller/callbacks/__init__.py BinaryParameterCallback"), ("LED output", L + "controller/inputs.py SwitchController.brightnesses")],
     observe=["LED strip contents, label colour and text"])

prop("C14", "Paging: exactly the actions of the current page are active",
     "With a pager, exactly the actions assigned to the current page (and those without a page) react to switches and drive LEDs and labels; pressing the pager moves to the next page in order and wraps around, a direct page action jumps to its page, and the LEDs and labels shown after a page change are those of the actions of the new page. The pager itself shows the colour and text of the current page (the colour of its own page, bright only while that is the current one, if it selects a fixed page).",
     ["histories", "configurations"], "all numbers of pages, action to page assignments on shared switches and labels, sequences of pager presses, direct jumps and device messages",
     "Tests press through a fixed three page setup.",
     [LO + "actions/pager.py", LO + "actions/pager_direct.py", L + "controller/actions/__init__.py"],
     [("pager as enable callback, action update on enabled change", LO + "actions/pager.py")],
     observe=["calls and displays of the actions, messages"])

prop("C15", "Expression pedals send clamped, monotone, rate limited values without repeats",
     "For any raw pedal position 0..65535 the value sent lies between 0 and the configured maximum, grows monotonically with the position, reaches 0 at the bottom and the maximum at the top (if the number of steps divides the range, else within half a step), and is 0 below a configured raw threshold. The same value is never sent twice in a row, not more than the configured number of values is sent per second, and the last position held is always eventually sent. A custom transfer function is applied as given.",
     ["inputs", "histories", "configurations"], "all raw positions, step counts, maximum values, frame rates, thresholds and transfer functions, with arbitrary movement and timing",
     "Tests check a table of positions for two step counts.",
     [L + "controller/actions/AnalogAction.py", L + "clients/local/actions", K + "mappings/pedals.py"],
     [("scaling, quantisation, dedupe, period", L + "controller/actions/AnalogAction.py")],
     observe=["messages sent"])

prop("C16", "Pedal auto calibration spans the range that was actually seen",
     "With automatic calibration nothing is sent until the observed positions span the minimum window; afterwards the lowest position seen so far sends 0 and the highest the maximum value, with monotone values in between, whatever order the positions came in. A transfer function is given positions of the full raw range 0..65535 only.",
     ["inputs", "histories"], "all sequences of raw positions and window sizes",
     "Tests run one calibration sequence.",
     [L + "controller/actions/AnalogAction.py"],
     [("running minimum and maximum", L + "controller/actions/AnalogAction.py")],
     observe=["messages sent"])

prop("C17", "Encoders change the parameter by exactly the turned steps within range",
     "Turning an encoder by n steps in direct mode sets the parameter to its current (device reported) value plus n times the step width, clamped to the configured range; every turn which changes the value is sent, no turn is lost whatever the absolute encoder position is, and without turning nothing is sent. Fractions of a step are collected and only whole values sent. An unknown parameter value counts as zero.",
     ["inputs", "histories", "configurations"], "all sequences of positions (including negative ones), device updates in between, step widths (including fractions), ranges",
     "Tests turn through a few positive positions without device changes.",
     [L + "controller/actions/EncoderAction.py"],
     [("position delta, clamping", L + "controller/actions/EncoderAction.py")],
     observe=["messages sent"])

prop("C18", "Encoder preselection sends only what was accepted",
     "With an accept button, turning the encoder only changes a preselected value which starts at the current parameter value and stays within range; nothing is sent before the accept button is pressed, which sends exactly the preselected value once. Cancelling, or a change of the assigned reset parameter, discards the preselection, so that accepting afterwards sends nothing and the next turn starts from the current parameter value again. A button may be the accept button of one encoder and the cancel button of another.",
     ["histories", "configurations"], "all interleavings of turning, accept, cancel, device updates and reset parameter changes",
     "Tests run two scripted sequences.",
     [L + "controller/actions/EncoderAction.py", LO + "actions/encoder_button.py"],
     [("preselect state", L + "controller/actions/EncoderAction.py"), ("accept and cancel buttons", LO + "actions/encoder_button.py")],
     observe=["messages sent, preview text"])

prop("C19", "Value previews appear, blink, give way and disappear as configured",
     "A preview text replaces the text of its label immediately and stays for the configured time (counted from the last preview) or, if it is to stay, until it is reset; afterwards the label shows its regular content and colour again, including content that changed meanwhile. When another party starts a preview on the same label, all others are cancelled, and a blinking preview alternates between the two colours with the configured period.",
     ["histories", "schedules", "configurations"], "all interleavings of previews of several clients, resets, label changes and updates, all timeouts and blink periods",
     "Tests check single previews with a mocked counter.",
     [L + "controller/preview.py", L + "ui/elements.py"],
     [("override text, timeout and blink counters, client list", L + "controller/preview.py ValuePreview")],
     observe=["label text and colour"])

prop("C20", "Labels render text, background and contrast correctly",
     "What is shown on screen for a label is at any time the last text assigned (wrapped to the maximum width without losing words), or the low memory message while memory is low; its colour is the configured text colour, or else black on bright and white on dark or missing backgrounds, following every background change. Texts and colours assigned before the label is shown appear when it is shown, and the label is placed in the middle of its bounds on top of a background inset by the stroke.",
     ["inputs", "histories", "configurations"], "all texts, colours, strokes, bounds and orders of assignment and initialization",
     "Tests check selected assignments.",
     [L + "ui/elements.py"],
     [("DisplayLabel text, back_color, text_color", L + "ui/elements.py")],
     observe=["contents of the display group"])

prop("C21", "Layout helpers partition areas exactly",
     "Cutting an area at any side yields a part and a rest that tile the original exactly; translating and positioning keep the size; helpers without 'remove' leave their input untouched. A split container gives its children equally sized, non overlapping slots in order along its direction that stay within its area and miss less than one pixel per child, recursively for nested containers.",
     ["inputs", "configurations"], "all areas and amounts (including fractions), all sequences of operations, all container trees",
     "Tests check single examples per function.",
     [L + "ui/layout.py", L + "ui/ui.py", L + "ui/DisplaySplitContainer.py"],
     [("integer arithmetic on bounds", L + "ui/layout.py")],
     observe=["bounds"])

prop("C22", "Tuner mode switches display and switches over and back completely",
     "While the device reports tuner mode, the tuner screen is shown and every switch press only ends tuner mode (once, on release) instead of triggering its actions, unless underlying actions are configured to be processed, too; the LEDs of all switches are dark when it starts (unless underlying actions are processed). As soon as the device reports the end of tuner mode or the connection is lost, the default screen is shown again and all switches, LEDs and labels work and look as if tuner mode had never been active, given the same device state (LEDs no enabled action uses excepted).",
     ["histories", "configurations"], "all histories of tuner on/off by device or switch, switch presses overlapping the changes, connection losses, and parameter changes while tuning; all action types with device feedback on the switches",
     "Tests switch once on and off with mocked actions.",
     [K + "__init__.py", L + "ui/UiController.py", L + "controller/inputs.py"],
     [("override action, reset of actions", K + "__init__.py TunerDisplayCallback"), ("splash selection", L + "ui/UiController.py")],
     observe=["shown group, LEDs, messages sent"])

prop("C23", "Tuner display shows note and deviance within bounds",
     "For every note and deviance value the tuner shows the name of the note (the value modulo 12 from C) and places the marker within its area, moving monotonically with the deviance and centered when in tune; note and marker show the in-tune colour exactly when the deviance lies within the calibration limits.",
     ["inputs", "configurations"], "all notes, all 16384 deviance values, areas, zoom factors, marker widths and calibration limits",
     "Tests check about ten values with default sizes.",
     [L + "ui/elements.py"],
     [("marker position and colour", L + "ui/elements.py TunerDisplay")],
     observe=["marker position, colours, label text"])

prop("C24", "The strobe tuner rotates with the deviance and keeps LEDs valid",
     "In tuner mode with strobe enabled, the LEDs of all switches show the strobe colour with brightnesses between 0 and the dim factor, forming one moving highlight over the switches in their strobe order; it moves faster the larger the deviance, in opposite directions for sharp and flat (reversed if so configured), stands still when exactly in tune, and never runs outside of tuner mode or faster than the frame limit.",
     ["inputs", "histories", "schedules", "configurations"], "all deviance values and timings, switch numbers, widths, speeds and frame rates",
     "Tests check a few steps with fixed numbers.",
     [L + "controller/strobe.py", K + "__init__.py"],
     [("position integration and brightness curve", L + "controller/strobe.py StrobeController")],
     observe=["LED strip contents"])

prop("C25", "Rig selection reaches exactly the requested rig",
     "Pressing a rig select switch makes the device load exactly the configured rig (in the configured bank, or in the current bank if none is given, or in the preselected one), and the switch shows as active exactly when the device reports that rig (if it displays its target rig, the documented default; else it shows the current one). With an off rig configured, pressing it again while its rig is active loads the off rig; with the 'auto' setting it returns to the rig which was active before.",
     ["histories", "configurations"], "all rig, bank and off rig settings, all histories of presses and rig changes by the device, with and without a known current rig",
     "Tests compare chosen message sequences; none runs against a device model.",
     [K + "actions/rig_select.py", K + "actions/rig_select_and_morph_state.py", K + "mappings/select.py"],
     [("mapping and value selection per state", K + "actions/rig_select.py")],
     observe=["rig of a device model fed with the messages sent, LEDs, label"])

prop("C26", "Bank selection and bank stepping reach exactly the requested bank",
     "Pressing a bank select switch makes the device load the current rig number of exactly the configured bank, and bank up/down exactly the next or previous bank with wrap around at the ends (or the configured offset); with preselection nothing is loaded until a rig is selected, which then is loaded from exactly the preselected bank, and the preselection ends with it. Changing the rig at the device meanwhile keeps the preselection.",
     ["histories", "configurations"], "all banks and rigs as starting points, sequences of bank switches, rig switches and device side rig changes, with and without preselection",
     "Tests compare chosen message sequences from a few starting rigs.",
     [K + "actions/bank_select.py", K + "actions/bank_up_down.py", K + "actions/bank_select_encoder.py", K + "mappings/bank.py", K + "mappings/select.py"],
     [("bank and rig computation from the rig ID", K + "actions/bank_select.py, bank_up_down.py")],
     observe=["rig of a device model fed with the messages sent"])

prop("C27", "Rig up/down steps through the rigs and shows the right target",
     "Pressing rig up or down makes the device load the neighbouring rig: within the bank if the bank is to be kept (nothing happens at its ends), else across the banks with wrap around; the displayed target or current rig, its bank colour and the text are those of the documented display mode for the rig the device reports.",
     ["histories", "configurations"], "all rig IDs, sequences of presses and device side changes, all display modes",
     "Tests compare some sequences at some rig IDs.",
     [K + "actions/rig_up_down.py", K + "actions/bank_up_down.py"],
     [("target computation", K + "actions/rig_up_down.py")],
     observe=["rig of a device model, LEDs, label"])

prop("C28", "The rig display shows name and position of the current rig",
     "The rig name label shows the name the device reported last and/or its bank and rig number counted from 1 as configured, the default text as long as no name is known, and the preselected bank while a preselection is active, returning to the rig when it ends.",
     ["histories", "inputs", "configurations"], "all display settings, rig IDs, names, preselections and orders of arrival",
     "Tests check each setting with one or two values.",
     [K + "__init__.py"],
     [("update_label", K + "__init__.py KemperRigNameCallback")],
     observe=["label text"])

prop("C29", "Effect switches show type and state of their slot and switch it",
     "An effect slot switch shows name and colour of the category the reported effect type belongs to and the reported on/off state, an empty slot always shows as off; pressing it toggles the slot on the device and nothing else. Switches of different slots never influence each other, and the same holds for the variant with extended effect names.",
     ["inputs", "histories", "configurations"], "all 16384 type values, all slots, histories of type and state messages, presses and rig changes",
     "Tests check one type per category.",
     [K + "actions/effect_state.py", K + "actions/effect_state_extended_names.py", L + "controller/callbacks/effect_enable.py"],
     [("type to category table", K + "actions/effect_state.py")],
     observe=["LEDs, label, messages"])

prop("C30", "Every Kemper function is sent and read at its documented address",
     "Each predefined Kemper parameter and action sends exactly the documented controller number or NRPN address with the documented values, and reads its value back from the documented address, so that on a device model it changes and shows exactly the addressed function and no other.",
     ["configurations", "inputs", "histories"], "all predefined mappings and actions, all slots, all values and button modes",
     "Tests check a part of the actions for the mapping object used, which is the implementation itself.",
     [K + "mappings", K + "actions", K + "__init__.py"],
     [("mapping definitions", K + "mappings/*.py")],
     observe=["messages sent, values parsed"])

prop("C31", "Effect buttons and morph follow presses, rig changes and the device",
     "Effect button I to IIII switches send the button controller as configured and are shown off again after the rig changes; morph switches send their press and release and the displayed morph colour always is the mixture of the two end colours given by the last reported morph position, within 0..255 per component.",
     ["histories", "inputs", "configurations"], "all buttons and modes, histories of presses, rig changes and morph positions, all end colours",
     "Tests check fixed sequences.",
     [K + "actions/effect_button.py", K + "actions/morph.py", K + "mappings/morph.py"],
     [("rig change reset", K + "actions/effect_button.py"), ("morph colour interpolation", K + "actions/morph.py")],
     observe=["messages, LEDs, label"])

prop("C32", "Tempo: taps are sent, tempo is shown",
     "Every tap is sent once on press and ended on release; the tempo display shows the bpm the device reports in the configured text, for every tempo value rounded to the nearest displayed unit, and the tempo LED blinks on exactly when the device signals it.",
     ["inputs", "histories", "configurations"], "all tempo values and display configurations, tap and beat histories",
     "Tests check single tempo values.",
     [K + "actions/tempo.py", K + "actions/tempo_bpm.py", K + "callbacks/tempo_bpm.py", K + "mappings/tempo.py", K + "mappings/tempo_bpm.py"],
     [("conversion and display", K + "callbacks/tempo_bpm.py, actions/tempo.py")],
     observe=["messages, LEDs, label"])

prop("C33", "Parameter up/down steps by the offset within its limits, with repeat",
     "Each press of a parameter up/down switch changes the parameter by exactly the configured offset from the value the device reported, clamped to the limits; holding it repeats the step once per repeat interval until it is released, and never afterwards.",
     ["histories", "schedules", "configurations"], "all offsets, limits, values, repeat times and press/page change timings",
     "Tests run one repeat sequence.",
     [LO + "actions/param_change.py"],
     [("repeat counter", LO + "actions/param_change.py")],
     observe=["messages"])

prop("C34", "Custom and rotating MIDI messages are sent byte by byte as configured",
     "A custom message switch sends exactly the configured bytes on press and, if configured, the release bytes on release, for any valid byte sequence. A rotating message switch sends its messages in turn, one per press, advances when it is released, wraps around, and shows the text, label colour and LED colour that belong to the current position, independent of other switches.",
     ["inputs", "histories", "configurations"], "all byte strings, message lists of any length and all press histories",
     "Tests send two or three fixed messages.",
     [LO + "actions/custom.py", LO + "actions/rotate.py"],
     [("raw message parsing", LO + "actions/custom.py"), ("rotation state", LO + "actions/rotate.py")],
     observe=["bytes sent, LEDs, label"])

prop("C35", "Keyboard actions press and release exactly their keys",
     "A keyboard action sends exactly its configured key codes, each press is followed by the corresponding release so that no key stays pressed, and nothing is sent without a press.",
     ["histories", "configurations"], "all key sets and press histories",
     "Tests send one or two keys.",
     [LO + "actions/hid.py"], [("keyboard report", LO + "actions/hid.py")],
     observe=["HID reports"])

prop("C36", "Boomerang switches follow the looper's state and send its commands",
     "Each Boomerang switch sends exactly the program change of its documented function on each press (alternating between the two numbers of the function, so that the looper notices repeated presses), and shows the documented or configured colour and text, independently of all other switches.",
     ["histories", "configurations"], "all Boomerang functions, configurations and press histories",
     "Tests check single presses.",
     [L + "clients/boomerang/actions/boomerang.py"], [("action factories", L + "clients/boomerang/actions/boomerang.py")],
     observe=["messages, LEDs, label"])

prop("C37", "All displays of one parameter agree",
     "Whatever the order in which actions, labels and pages are created and used, all switches and labels bound to the same device parameter show the same value at any time after updates have run, equal to the one the device reported or the user set last; asking twice for the same predefined parameter always yields the same one.",
     ["histories", "configurations"], "all combinations of observers of the same parameters, created in any order, with histories of presses on any of them and device changes",
     "Tests use one observer per parameter.",
     [L + "controller/client.py", L + "controller/actions/__init__.py", L + "controller/callbacks/__init__.py"],
     [("one mapping object per name", L + "controller/client.py ClientParameterMapping.get")],
     observe=["LEDs, labels, values"])

prop("C38", "No configuration of the offered actions can crash the controller",
     "Every input configuration that combines the actions, parameters and displays offered to users (as listed in the editor's definitions) with values of their documented kinds starts up, and then runs through any sequence of presses, turns, pedal movements, device messages and time without an error, sending only valid MIDI messages and valid LED colours.",
     ["configurations", "histories"], "random compositions of all offered actions with random parameter values on random switches, under random histories",
     "Tests build each action once, with default or a few chosen arguments, mostly with mocks.",
     ["content/lib/pyswitch", "web/htdocs/definitions/actions.json"],
     [("action factories", LO + "actions, " + K + "actions, " + L + "clients/boomerang")],
     observe=["exceptions, MIDI messages, LED values"])

prop("C39", "All shipped configurations run under any use",
     "Each configuration shipped with the software (default, templates, examples) starts on the hardware it is made for and runs through any sequence of presses, turns, pedal movements, device messages, disconnections and time without an error, with valid MIDI messages and LED colours only, every configured input is connected to the pins of its device and reacts, and the rig name shown follows the device.",
     ["configurations", "histories"], "all shipped configurations, random histories",
     "The Python tests never load the shipped configurations.",
     ["content", "examples", "web/htdocs/templates", L + "process.py", L + "hardware/devices"],
     [("configuration modules", "content/*.py, examples/**"), ("entry point", L + "process.py")],
     observe=["exceptions, MIDI messages, LED values"])

prop("C40", "Explore mode identifies switches and LEDs",
     "In explore mode every available port is observed, pressing a switch shows exactly its port name, and the shown/lit LED moves forward or back by exactly one (with wrap around) per press, so that any sequence of presses leads to the expected port display and exactly one lit LED group.",
     ["histories", "configurations"], "all boards and sequences of presses",
     "Tests press each switch once.",
     [L + "controller/explore.py"], [("explore switch handling", L + "controller/explore.py")],
     observe=["labels, LEDs"])

prop("C41", "Diagnostics report what happened",
     "Runtime statistics report the true number, maximum, sum and average of the measured times per interval and start anew afterwards; size formatting is correct to one decimal in the right unit for any number; the text form of any MIDI message names its type and contents. Debug options print exactly the messages and parameters concerned and do not change what the controller does.",
     ["inputs", "histories"], "all measured time sequences, numbers and messages",
     "Tests check single values.",
     [L + "controller/measure.py", L + "stats.py", L + "misc.py", L + "debug_tools.py"],
     [("accumulators", L + "controller/measure.py")],
     observe=["reported values and texts"])

prop("C42", "The editor's configuration parser keeps what it does not edit",
     "Reading any inputs or display configuration and writing it back without a change yields the same source; reading out and re-generating any statement yields an equal one; code not touched by an edit (comments, helper assignments, other inputs) stays as it was. Edited parts are brought to one normal layout with the same meaning, which then stays the same however often they are written.",
     ["inputs", "histories"], "all shipped configurations and generated ones",
     "The parser's tests run in a browser only and check fixed files.",
     ["web/htdocs/python/parser"], [("libcst transformers", "web/htdocs/python/parser")],
     observe=["generated source"])

prop("C43", "Edits made in the editor end up in the configuration exactly",
     "After setting the actions of an input in the editor's parser, reading the configuration again yields exactly those actions with exactly those parameters, all other inputs unchanged; all names used are imported, and unused imports and assignments can be removed without making the configuration invalid Python.",
     ["histories", "inputs"], "all sequences of edits on shipped and generated configurations",
     "As above.",
     ["web/htdocs/python/parser"], [("ReplaceAssignment, AddImports and related transformers", "web/htdocs/python/parser/misc")],
     observe=["generated source, parsed structures"])

prop("C44", "The emulator does what the device does",
     "Run in the emulator of the web application, a configuration behaves like on the device: with the same presses, wheel and pedal movements and the same incoming MIDI messages, however many arrive at once, it sends the same messages and shows the same LED colours, texts and areas at the same times.",
     ["histories", "inputs"], "all configurations and histories of user actions and batches of MIDI messages",
     "There are no tests for the emulator's wrappers outside of a browser.",
     ["web/htdocs/python/PySwitchRunner.py", "web/htdocs/python/wrappers"], [("queue draining", "web/htdocs/python/wrappers/wrap_adafruit_midi.py"), ("rendering", "web/htdocs/python/wrappers/wrap_adafruit_display.py")],
     observe=["messages sent", "LED colours", "texts and rectangles drawn"])

prop("C45", "Files are transferred completely and unchanged to and from controllers",
     "Files of any content which are loaded from or saved to a controller over the MIDI bridge arrive complete and unchanged, in messages which fit into the input buffer of the controller, also while foreign messages arrive or other transfers are running; with lost, repeated or damaged messages a transfer can fail, but never delivers or stores something else. Connecting and scanning find controllers where there are some, and end with an error otherwise.",
     ["inputs", "histories", "fault_sequences"], "all contents, paths, chunk sizes, concurrent transfers and faults on the wire",
     "The bridge has no tests that run outside of a browser.",
     ["web/htdocs/lib/jsmidibridge/JsMidiBridge.js", "web/htdocs/js/midi", "web/htdocs/js/DeviceController.js"], [("chunking, 7 bit packing and checksums", "web/htdocs/lib/jsmidibridge/JsMidiBridge.js"), ("connect, scan", "web/htdocs/js/midi/MidiBridgeHandler.js"), ("load, save", "web/htdocs/js/DeviceController.js")],
     observe=["received and stored files", "results and errors of the operations", "messages sent"])

prop("C46", "The virtual Kemper behaves like the device the controller expects",
     "Connected to the emulator's virtual Kemper, the controller's requests are answered with the value at the requested address, set messages change exactly the addressed parameter, and bank, rig and beacon messages are understood, so that controller and virtual device agree on every parameter after any exchange of messages (tempo to whole bpm).",
     ["histories", "inputs"], "all parameters, values and message sequences",
     "The virtual device's tests run in a browser with fixed sequences.",
     ["web/htdocs/clients/kemper/virtual"], [("message parsing of the virtual device", "web/htdocs/clients/kemper/virtual")],
     observe=["messages exchanged"])

prop("C47", "Device definitions and hardware drivers are wired correctly",
     "With any selection of the inputs defined for a supported device, each input reacts to its own pins only (a switch when its pin is closed to ground, a pedal to the voltage, the wheel to its rotation), lights its own LEDs only, and has its place in the order around the board used by the strobe tuner; the MIDI ports (USB and serial) pass all messages completely, on the configured channels.",
     ["configurations", "histories"], "all devices, all subsets and orders of inputs, channels, histories of pin levels and MIDI bytes",
     "No test reads the device definitions or drives the hardware drivers.",
     [L + "hardware/devices", L + "hardware/adafruit", L + "process.py"], [("definition tables", L + "hardware/devices/*.py"), ("drivers", L + "hardware/adafruit/*.py")],
     observe=["pins opened, LEDs lit, bytes sent"])

prop("C48", "Everything the editor offers works on the controller as offered",
     "Actions created in the editor with any of the offered parameter values, on any input of a configuration, are written as a configuration which starts and runs on the controller without failing; and a parameter left out in the configuration has the effect of the default value which the editor shows for it.",
     ["configurations", "histories"], "all actions, inputs, offered parameter values, configurations, and histories of use",
     "Tests never compare the defaults shown by the editor with those of the firmware, and never run what the editor writes.",
     ["web/htdocs/definitions", "web/htdocs/js/model", "web/htdocs/python/parser", L + "clients"],
     [("definitions of actions and defaults", "web/htdocs/definitions/actions.json"), ("offered values", "web/htdocs/definitions/meta.json"), ("imports of written files", "web/htdocs/python/parser/PySwitchParser.py")],
     observe=["errors at start and run", "messages sent", "LEDs and labels"])

prop("C49", "Configurations are opened as they were saved, unsaved changes are not lost",
     "In the web application, whatever is saved as a preset of any name, to a controller or to a directory is stored there completely, leaves everything else stored untouched, and is what is shown and run when it is opened again, also after reloading the page; the current configuration is marked as changed exactly while it differs from what was saved last, changes are never given up (nor other presets overwritten) without asking, and a failed save is not reported as success.",
     ["histories", "inputs", "fault_sequences"], "all names, contents, storage places and histories of opening, editing, saving, renaming, deleting and reloading",
     "The web application's storage and routing have no tests at all.",
     ["web/htdocs/js/model/configurations", "web/htdocs/js/model/Presets.js", "web/htdocs/js/routing", "web/htdocs/js/Controller.js", "web/htdocs/js/ui"],
     [("saving, loading, dirty state", "web/htdocs/js/model/configurations/*.js"), ("routes", "web/htdocs/js/routing/Routing.js"), ("dialogs", "web/htdocs/js/ui/PySwitchUI.js")],
     observe=["stored presets and files", "configuration shown and run", "change mark, questions and messages"])

prop("C50", "The web application is connected to the client device the user chose",
     "Whatever clients are chosen, configurations opened and ports present, in any order and also while scans are running, the emulator ends up connected to exactly the last choice (auto-detection: a port on which the device of the configuration answers, else its virtual device), messages of this client arrive exactly once and those of the emulator go only there, and ports which fail or answer something else do not disturb this.",
     ["histories", "configurations", "fault_sequences", "schedules"], "all sets of ports, answering times, faults, choices and histories",
     "Client detection and connection have no tests; races between scans cannot be sampled.",
     ["web/htdocs/js/ClientController.js", "web/htdocs/js/midi", "web/htdocs/js/DeviceController.js", "web/htdocs/clients"],
     [("scan and connection", "web/htdocs/js/ClientController.js"), ("detection of Kempers", "web/htdocs/clients/kemper/KemperClientDetector.js"), ("MIDI handling", "web/htdocs/js/midi/*.js")],
     observe=["messages per port", "client shown", "state of the virtual device"])

prop("C51", "Settings entered in the web application have their effect everywhere",
     "After any history of entering, applying, emptying and resetting settings, restarts and reloading, the settings shown in the settings tab, those the emulator runs with, and those in the downloaded config.py (executed as Python) are exactly the ones the user has set, with the firmware's defaults for all others.",
     ["histories", "inputs"], "all settings, values and histories",
     "No test reads the settings classes or the config.py written by them.",
     ["web/htdocs/js/model/ConfigFile.js", "web/htdocs/js/model/CommunicationSettings.js", "web/htdocs/js/ui/misc/EmulatorSettings.js"],
     [("settings", "web/htdocs/js/model/ConfigFile.js"), ("settings tab", "web/htdocs/js/ui/misc/EmulatorSettings.js")],
     observe=["fields", "emulator configuration", "config.py"])
prop("C52", "The editor shows the actions configured; its dialogs change only what users do",
     "After any history of opening, changing, applying and closing the dialogs of actions, adding, removing and dragging actions, editing pages and input settings, the editor shows exactly the actions in inputs.py (name, press or long press, paging, label warnings), and each step changes exactly what the user did: parameters not touched keep their hand-written values, closing without applying changes nothing, and inputs.py stays valid Python.",
     ["histories", "inputs"], "all actions, parameter values and histories of using the dialogs",
     "No test opens the dialogs.",
     ["web/htdocs/js/ui/parser/ActionProperties.js", "web/htdocs/js/ui/parser/ParserFrontendInput.js", "web/htdocs/js/ui/parser/PagerProperties.js", "web/htdocs/js/ui/parser/PagesList.js", "web/htdocs/js/model/parser/ParserChecks.js", "web/htdocs/js/model/parser/FunctionMeta.js"],
     [("dialog", "web/htdocs/js/ui/parser/ActionProperties.js"), ("input", "web/htdocs/js/ui/parser/ParserFrontendInput.js")],
     observe=["inputs.py", "actions shown", "fields of dialogs"])
