"""Rig and bank actions of a generated configuration on the device model, with a reference model of what
the presses have to load and of what the switches, labels and the rig name display have to show. Used by
C25 (rig select), C26 (bank select and stepping), C27 (rig up/down) and C28 (rig name display)."""
from hypothesis import strategies as st
from .world import World
from .app import App, expect, label, root, splash_callback
from .kemperdev import Device, RIGS
from . import gens

BANK_COLORS = [(0, 0, 255), (255, 255, 0), (255, 0, 0), (100, 255, 100), (180, 0, 120)]
WHITE = (255, 255, 255)
SETTLE = 1000       # ms: two blink periods and several periodic updates

rig_id = st.one_of(st.integers(0, RIGS - 1), st.sampled_from([0, 4, 5, 620, 624, 9, 10, 312]))
bank1 = st.one_of(st.integers(1, 125), st.sampled_from([1, 2, 3, 125, 124]))


@st.composite
def switch(draw, kind):
    d = {"k": kind, "label": draw(st.booleans()), "leds": draw(gens.rarely(st.just(False), True)), "pixels": draw(st.integers(1, 3)),
         "color": draw(gens.rarely(gens.color, None, 4)), "text": draw(st.sampled_from([None, None, "cb", "Foo"])),
         "target": draw(st.booleans())}
    if kind == "rig":
        d["rig"] = draw(gens.rarely(st.none(), draw(st.integers(1, 5)), 8))
        d["bank"] = draw(st.one_of(st.none(), bank1))
        d["rig_off"] = d["bank_off"] = None
        d["exclude"] = None
        if d["rig"] is not None and draw(st.booleans()):
            d["rig_off"] = draw(st.one_of(st.integers(1, 5), st.just("auto")))
            if d["bank"] is not None:
                d["bank_off"] = draw(st.one_of(bank1, st.just("auto")))
            if d["rig_off"] == "auto" and d["bank"] is None:
                d["exclude"] = draw(gens.rarely(st.lists(st.integers(1, 5), min_size=1, max_size=3), None, 2))
        elif d["rig"] is not None and d["bank"] is not None:
            d["bank_off"] = draw(gens.rarely(bank1, None, 3))
        d["via"] = draw(gens.rarely(st.just("morph"), "plain", 5)) if d["exclude"] is None else "plain"
    elif kind == "bank":
        d["bank"] = draw(bank1)
        d["preselect"] = draw(st.booleans())
        d["bank_off"] = draw(gens.rarely(bank1, None, 2)) if not d["preselect"] else None
    elif kind in ("bankup", "bankdown"):
        d["preselect"] = draw(st.booleans())
        d["max_bank"] = draw(gens.rarely(st.integers(1, 125), None, 3)) if d["preselect"] else None
        d["dim"] = draw(st.sampled_from(["off", "on", 0.5, 0, 1]))
        d["brightness"] = draw(st.sampled_from(["off", "on", 0.5, 0, 1]))
    elif kind in ("rigup", "rigdown"):
        d["keep"] = draw(st.booleans())
    return d


@st.composite
def cases(draw, kinds, max_ops=12):
    """kinds: list of kinds to choose the switches from; the first one is always present"""
    n = draw(st.integers(1, 4))
    switches = [draw(switch(kinds[0]))] + [draw(switch(draw(st.sampled_from([k for k in kinds if k != "enc"])))) for _ in range(n - 1)]
    encoder = "enc" in kinds and draw(st.booleans())
    near = [s["bank"] for s in switches if s.get("bank")]
    ops = []
    for _ in range(draw(st.integers(2, max_ops))):
        k = draw(st.integers(0, 9))
        if k <= 5:
            ops.append(["tap", draw(st.integers(0, n - 1))])
        elif k <= 6 and encoder:
            ops.append(["turn", draw(st.integers(-6, 6))])
        elif k == 7:
            ops.append(["hold", draw(st.integers(0, n - 1)), draw(rig_id)])
        elif near and draw(st.booleans()):
            ops.append(["load", (draw(st.sampled_from(near)) - 1) * 5 + draw(st.integers(0, 4))])
        else:
            ops.append(["load", draw(rig_id)])
    return {"switches": [s for s in switches], "encoder": encoder, "preview": draw(st.booleans()), "ops": ops, "rig": draw(rig_id),
            "known": draw(gens.rarely(st.just(False), True, 6)),
            "name": draw(st.sampled_from([[True, False], [True, True], [False, True], [False, "rig"], [True, "bank"], [True, "rig"], [False, "bank"]])),
            "names": draw(st.integers(0, 2)),
            "bidi": draw(st.booleans()),
            "config": draw(st.fixed_dictionaries({}, optional={
                "displayDimFactorOff": st.sampled_from([0, 0.1, 0.5, 1]), "displayDimFactorOn": st.sampled_from([0.5, 1]),
                "ledBrightnessOff": st.sampled_from([0, 0.1]), "ledBrightnessOn": st.sampled_from([0.5, 1])}))}


def near_color(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


def dimmed(c, f):
    return tuple(int(x * f) for x in c)


NAMES = [lambda r: "Rig name %d" % r, lambda r: "same" if r % 2 else "other", lambda r: "N%d" % (r // 5)]


class Session:
    def __init__(self, w, case, rec):
        self.w, self.case, self.rec = w, case, rec
        RS = w.imp("clients.kemper.actions.rig_select")
        RSM = w.get("clients.kemper.actions.rig_select_and_morph_state", "RIG_SELECT_AND_MORPH_STATE")
        BS = w.get("clients.kemper.actions.bank_select", "BANK_SELECT")
        BU = w.imp("clients.kemper.actions.bank_up_down")
        RU = w.imp("clients.kemper.actions.rig_up_down")
        ENC = w.get("clients.kemper.actions.bank_select_encoder", "ENCODER_BANK_SELECT")
        kemper = w.imp("clients.kemper")
        mode = {True: RS.RIG_SELECT_DISPLAY_TARGET_RIG, False: RS.RIG_SELECT_DISPLAY_CURRENT_RIG}
        cfg = case["config"]
        self.dim_off = cfg.get("displayDimFactorOff", 0.2)
        self.dim_on = cfg.get("displayDimFactorOn", 1)
        self.led_off = cfg.get("ledBrightnessOff", 0.02)
        self.led_on = cfg.get("ledBrightnessOn", 0.3)
        inputs = []
        self.labels = []
        px = 0
        for i, s in enumerate(case["switches"]):
            lab = label(w, y=30 * i, h=28) if s["label"] else None
            self.labels.append(lab)
            kw = {"display": lab, "use_leds": s["leds"], "display_mode": mode[s["target"]], "color": tuple(s["color"]) if s["color"] else None}
            if s["text"] == "cb":
                kw["text_callback"] = lambda action, bank, rig: "%d/%d" % (bank, rig)
            elif s["text"]:
                kw["text"] = s["text"]
            k = s["k"]
            if k == "rig":
                f = RS.RIG_SELECT
                if s["via"] == "morph":
                    f = RSM
                    kw["morph_use_leds"] = False
                else:
                    kw["auto_exclude_rigs"] = s["exclude"]
                a = f(s["rig"], rig_off=s["rig_off"], bank=s["bank"], bank_off=s["bank_off"], **kw)
            elif k == "bank":
                a = BS(s["bank"], bank_off=s["bank_off"], preselect=s["preselect"], **kw)
            elif k in ("bankup", "bankdown"):
                a = (BU.BANK_UP if k == "bankup" else BU.BANK_DOWN)(dim_factor=s["dim"], led_brightness=s["brightness"], preselect=s["preselect"], max_bank=s["max_bank"], **kw)
            else:
                a = (RU.RIG_UP if k == "rigup" else RU.RIG_DOWN)(keep_bank=s["keep"], **kw)
            inputs.append({"actions": [a], "pixels": list(range(px, px + s["pixels"]))})
            px += s["pixels"]
        self.pixels = [i["pixels"] for i in inputs]
        self.name = label(w, y=200, h=40, callback=kemper.KemperRigNameCallback(show_name=case["name"][0], show_rig_id=case["name"][1]))
        self.default_text = kemper.KemperRigNameCallback.DEFAULT_TEXT
        if case["encoder"]:
            inputs.append({"kind": "encoder", "actions": [ENC(preview_display=self.name if case["preview"] else None)]})
        self.app = App(w, inputs, config=cfg, splash=splash_callback(w, root(w, [l for l in self.labels if l] + [self.name])), tick_ms=20,
                       protocol=kemper.KemperBidirectionalProtocol(30) if case["bidi"] else None)
        self.names = NAMES[case["names"]]
        self.dev = Device(self.app, rig=case["rig"], bidirectional=case["bidi"], names=self.names, params={(0, 0x0b): 0})
        self.app.init()
        # reference model
        self.from_preselection = self.steps = self.edges = 0
        self.known = False                  # has the device reported its rig?
        self.pending = None
        self.pending_by = None
        self.enc_pending = False            # the wheel has changed the value which the bank displays show
        self.auto = [[None, None] for _ in case["switches"]]      # remembered (rig, bank), 1-based
        self.advance(1000)
        if case["known"]:
            self.dev.report_rig()
            self.learn()
        self.advance(SETTLE)

    def advance(self, ms):
        end = self.w.clock.ms + ms
        while self.w.clock.ms < end:
            self.dev.tick()
            self.app.tick()

    # ------------------------------------------------------------ reference model
    def learn(self):
        """The device has reported its rig"""
        self.known = True
        self.enc_pending = self.enc_pending and self.pending is not None
        cb, cr = self.dev.rig // 5 + 1, self.dev.rig % 5 + 1
        for s, m in zip(self.case["switches"], self.auto):
            if s["k"] == "rig" and s["rig"] is not None and not self.active(s):
                if not s["exclude"] or cr not in s["exclude"]:
                    if s["rig_off"] == "auto":
                        m[0] = cr
                    if s["bank_off"] == "auto" and (s["rig_off"] == "auto" or cb != s["bank"]):
                        m[1] = cb

    def active(self, s):
        cb, cr = self.dev.rig // 5 + 1, self.dev.rig % 5 + 1
        if s["k"] == "bank":
            return self.known and cb == s["bank"]
        return self.known and s["rig"] == cr and s["bank"] in (None, cb)

    def off_rig(self, i):
        """(rig, bank) loaded when the active rig switch is pressed again; values None are unknown"""
        s = self.case["switches"][i]
        rig = self.auto[i][0] if s["rig_off"] == "auto" else s["rig_off"]
        bank = None
        if s["bank"] is not None:
            bank = self.auto[i][1] if s["bank_off"] == "auto" else s["bank_off"]
        return rig, bank

    def press(self, i):
        """Returns (number of loads, rig loaded or None if not specified)"""
        s = self.case["switches"][i]
        k = s["k"]
        cb, cr = self.dev.rig // 5, self.dev.rig % 5
        if k == "rig":
            if self.pending is not None:
                bank, rig = self.pending, cr if s["rig"] is None else s["rig"] - 1
                if s["rig"] is None and not self.known:
                    return 0, None
                self.end()
                return 1, bank * 5 + rig
            if s["rig"] is None and not self.known:
                return 0, None
            if self.active(s) and (s["rig_off"] is not None or s["bank_off"] is not None):
                rig, bank = self.off_rig(i)
                if s["rig_off"] is None:
                    rig = s["rig"]
                if s["bank"] is None:
                    bank = cb + 1
                self.rec.label("off rig" + (" auto" if "auto" in (s["rig_off"], s["bank_off"]) else ""))
                return 1, (bank - 1) * 5 + rig - 1 if rig is not None and bank is not None else None
            bank = cb if s["bank"] is None else s["bank"] - 1
            return 1, bank * 5 + (cr if s["rig"] is None else s["rig"] - 1)
        if k == "bank":
            if not self.known:
                return 0, None
            if s["preselect"]:
                if self.pending is not None or cb != s["bank"] - 1:
                    self.pending, self.pending_by = s["bank"] - 1, i
                return 0, None
            wheel = self.pending is not None and self.enc_pending
            self.end()
            if wheel and s["bank_off"] is not None:
                return 1, None
            bank = s["bank"] - 1
            if s["bank_off"] is not None and cb == bank:
                bank = s["bank_off"] - 1
            return 1, bank * 5 + cr
        if k in ("bankup", "bankdown"):
            step = 1 if k == "bankup" else -1
            if s["preselect"]:
                if not self.known:
                    return 0, None
                base = cb if self.pending is None else self.pending
                self.pending, self.pending_by = (base + step) % (s["max_bank"] or 125), i
                return 0, None
            self.end()
            return 1, (self.dev.rig + 5 * step) % RIGS
        # rig up/down
        if not self.known:
            return 0, None
        t = self.next_rig(s)
        self.steps += 1
        self.edges += cr in (0, 4)
        if t == self.dev.rig:
            return 0, None
        if self.pending is not None and t // 5 == cb:
            t = self.pending * 5 + t % 5        # the device loads it from the preselected bank
        self.end()
        return 1, t

    def end(self):
        if self.pending is not None:
            self.rec.label("preselection ended")
            self.from_preselection += 1
        self.pending = None

    def next_rig(self, s):
        r = self.dev.rig
        step = 1 if s["k"] == "rigup" else -1
        if s["keep"]:
            return r + step if (r + step) // 5 == r // 5 else r
        return (r + step) % RIGS

    # ------------------------------------------------------------ operations
    def step(self, op):
        d = self.dev
        if op[0] == "load":
            if self.pending is None:
                d.preselected = None        # the current bank may have been selected again, which preselects nothing else
            d.load(op[1])
            self.learn()
        elif op[0] == "turn":
            m = self.app.models[-1]
            steps = []
            for _ in range(abs(op[1])):
                m.position += 2 if op[1] > 0 else -2        # two positions are one bank
                self.app.tick()
                cur = self.pending if self.pending is not None else (d.rig // 5 if self.known and not self.enc_unknown else None)
                if cur is None:
                    return "unknown"
                new = max(0, min(124, cur + (1 if op[1] > 0 else -1)))
                if new != cur:
                    self.pending, self.pending_by, self.enc_pending = new, None, True
                    steps.append(new)
                expect(d.preselected == (self.pending if self.pending is not None else d.preselected), lambda: f"device has preselected bank {d.preselected} after a turn, expected {self.pending}")
        else:
            i = op[1]
            before = d.loaded
            if not self.known and self.case["switches"][i]["k"] in ("rig", "bankup", "bankdown"):
                unknown = True
            else:
                unknown = False
            rig_before = d.rig
            loads, target = self.press(i)
            start = len(d.received)
            self.app.press(i)
            if op[0] == "hold":
                self.advance(300)
            got = d.loaded - before
            what = f"pressing switch {i} {self.case['switches'][i]} at rig {rig_before // 5 + 1}-{rig_before % 5 + 1}" + ("" if not unknown else " (not reported yet)")
            expect(got == loads, lambda: f"{what} loaded {got} rigs, expected {loads}")
            if loads and target is not None:
                expect(d.rig == target, lambda: f"{what} loaded {d.rig // 5 + 1}-{d.rig % 5 + 1}, expected {target // 5 + 1}-{target % 5 + 1}")
            if loads:
                self.learn()
            if self.pending is not None:
                expect(d.preselected == self.pending or d.preselected is None and d.rig // 5 == self.pending, lambda: f"{what} preselected bank {d.preselected} at the device, expected {self.pending}")
            if op[0] == "hold":
                if self.pending is None:
                    d.preselected = None
                d.load(op[2])
                self.learn()
                self.advance(300)
            n = d.loaded
            self.app.release(i)
            expect(d.loaded == n, lambda: f"{what}: the release loaded a rig")
            # The rig buttons of the device are pressed and released in turn
            for b in range(50, 55):
                m = [r[2] for r in d.received[start:] if r[0] == "cc" and r[1] == b]
                expect(len(m) % 2 == 0 and m[1::2] == [0] * (len(m) // 2) and all(m[::2]), lambda: f"{what}: rig button {b - 49} of the device gets the values {m}")
        return None

    enc_unknown = False

    # ------------------------------------------------------------ displays
    def check_displays(self, kinds, name=True):
        if "name" in kinds:
            self.check_name()
        for i, s in enumerate(self.case["switches"]):
            if s["k"] in kinds and not (self.enc_pending and s["k"] in ("bank", "bankup", "bankdown")):
                self.check_switch(i, s)

    def text(self, s, bank, rig, default):
        if s["text"] == "cb":
            return "%d/%d" % (bank, rig)
        return s["text"] or default(bank, rig)

    def check_switch(self, i, s):
        k = s["k"]
        cb, cr = self.dev.rig // 5, self.dev.rig % 5
        rigtext = lambda b, r: "Rig %d-%d" % (b + 1, r + 1)
        banktext = lambda b, r: "Bank %d" % (b + 1)
        pend = self.pending
        texts = None            # allowed texts, None: not specified
        if not self.known:
            col = WHITE
            if k == "rig" or k == "bank":
                texts, back, led = [""], [dimmed(WHITE, self.dim_off)], [self.led_off]
            elif k in ("rigup", "rigdown"):
                texts, back, led = [""], [(50, 50, 50)], [self.led_on]
            else:
                texts, back, led = None, [dimmed(WHITE, self.dim(s))], [self.brightness(s)]
        elif k == "rig":
            active = self.active(s)
            tr = cr if s["rig"] is None else s["rig"] - 1
            if not s["target"]:
                col = BANK_COLORS[cb % 5]
                tb = cb
                tr = cr
                led = [self.led_off]
            elif pend is not None:
                col = BANK_COLORS[pend % 5]
                tb = pend
                led = [self.led_off]
            else:
                tb = cb if s["bank"] is None else s["bank"] - 1
                if active and (s["rig_off"] is not None or s["bank_off"] is not None):
                    r, b = self.off_rig(i)
                    if s["bank"] is None:
                        b = cb + 1
                    tb = None if b is None else b - 1
                    tr = None if r is None or s["rig_off"] is None else r - 1
                col = None if tb is None else BANK_COLORS[tb % 5]
                led = [self.led_on if active else self.led_off]
            if pend is not None:
                led = [self.led_on, self.led_off]
            if tb is not None and tr is not None:
                texts = [self.text(s, tb, tr, rigtext)]
            if s["color"]:
                col = tuple(s["color"])
            back = None if col is None else [dimmed(col, 1 if s["target"] and active and pend is None else self.dim_off)]
        elif k == "bank":
            active = self.active(s)
            own = s["preselect"] and pend == s["bank"] - 1
            if not s["target"]:
                tb = cb
                led = [self.led_off]
                back = [self.dim_off]
            else:
                tb = s["bank"] - 1
                if active and s["bank_off"] is not None:
                    tb = s["bank_off"] - 1
                led = [self.led_on, self.led_off] if own else [self.led_on if active else self.led_off]
                back = [1, self.dim_off] if own else [1 if active else self.dim_off]
            texts = [self.text(s, tb, cr, banktext)]
            col = tuple(s["color"]) if s["color"] else BANK_COLORS[tb % 5]
            back = [dimmed(col, b) for b in back]
        elif k in ("bankup", "bankdown"):
            if pend is not None:
                return
            step = 1 if k == "bankup" else -1
            tb = (cb + step) % (s["max_bank"] or 125) if s["target"] else cb
            texts = [self.text(s, tb, cr, lambda b, r: "Bank up" if step == 1 else "Bank dn")]
            col = tuple(s["color"]) if s["color"] else BANK_COLORS[tb % 5]
            back = [dimmed(col, self.dim(s))]
            led = [self.brightness(s)]
        else:
            t = self.next_rig(s) if s["target"] else self.dev.rig
            texts = [self.text(s, t // 5, t % 5, rigtext)]
            col = tuple(s["color"]) if s["color"] else BANK_COLORS[t // 5 % 5]
            back = [col]
            led = [self.led_on]
        where = lambda: f"switch {i} {s} at rig {cb + 1}-{cr + 1} (known {self.known}, preselected bank {pend})"
        lab = self.labels[i]
        if lab:
            if texts is not None:
                expect(lab.text in texts, lambda: f"{where()} shows {lab.text!r}, expected {texts}")
            if back is not None:
                expect(any(near_color(lab.back_color, b) for b in back), lambda: f"{where()} has label colour {lab.back_color}, expected {back}")
        if s["leds"] and col is not None:
            leds = self.app.leds()
            for p in self.pixels[i]:
                expect(any(near_color(leds[p], dimmed(col, b)) for b in led), lambda: f"{where()} has LED {leds[p]}, expected {col} with brightness {led}")

    def dim(self, s):
        return {"off": self.dim_off, "on": self.dim_on}.get(s["dim"], s["dim"])

    def brightness(self, s):
        return {"off": self.led_off, "on": self.led_on}.get(s["brightness"], s["brightness"])

    def check_name(self):
        if self.pending is not None:
            exp = "Bank %d" % (self.pending + 1)
        else:
            show_name, show_id = self.case["name"]
            parts = []
            if show_id and self.known:
                b, r = self.dev.rig // 5 + 1, self.dev.rig % 5 + 1
                parts.append({"rig": "%d" % r, "bank": "%d" % b, True: "%d-%d" % (b, r)}[show_id])
            if show_name:
                parts.append(self.names(self.dev.rig))
            if not parts:
                return
            exp = " ".join(parts)
        got = self.name.override_text or self.name.text
        expect(got == exp, lambda: f"rig display shows {got!r}, expected {exp!r} (rig {self.dev.rig // 5 + 1}-{self.dev.rig % 5 + 1} reported: {self.known}, preselected bank: {self.pending})")


def run(case, rec, kinds, nontrivial):
    with World() as w:
        s = Session(w, case, rec)
        s.check_displays(kinds)
        for op in case["ops"]:
            rec.label(op[0])
            if op[0] == "turn" and (not s.known):
                continue
            s.step(op)
            s.advance(SETTLE)
            s.check_displays(kinds)
        s.app.check_wire()
        expect(not s.dev.unknown, lambda: f"messages the device does not know: {s.dev.unknown[:3]}")
        rec.nontrivial_if(nontrivial(s))
