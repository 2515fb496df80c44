from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect, label, root, splash_callback
from ..kemperdev import Device, MORPH
from .. import gens

ID = "C31"
RULE = ("Configurations of effect buttons, morph switches, morph displays, a morph pedal and rig switches with morph display on a device model which morphs (by button, pedal, at the device, reset by rig changes, and by pressing the "
        "rig switch again if this is configured); after each step of a history of presses, pedal moves, morph positions and rig changes the messages sent, the on/off look of the effect buttons and the mixed colours are compared "
        "with the model. Non-trivial: an effect button was on when the rig changed, or a morph position strictly between the ends was shown, or morph was toggled by a switch.")
NOTE = "The separate morph display of a rig switch (which ignores the first value after a rig change by design) is only checked to stay within the range of its two colours."

LGREEN, RED, BLUE = (100, 255, 100), (255, 0, 0), (0, 0, 255)


def cases():
    @st.composite
    def f(draw):
        sw = []
        kinds = ["fx", "fx", "button", "display", "rig"]
        first = draw(st.sampled_from(["fx", "button", "display"]))
        for k in [first] + draw(st.lists(st.sampled_from(kinds), max_size=3)):
            d = {"k": k, "label": draw(gens.rarely(st.just(False), True)), "pixels": draw(st.integers(1, 3)), "leds": draw(gens.rarely(st.just(False), True))}
            if k == "fx":
                d.update(num=draw(st.integers(1, 4)), internal=draw(gens.rarely(st.just(False), True)), color=draw(gens.rarely(gens.color, None, 3)), text=draw(gens.rarely(st.just("foo"), None, 4)))
            elif k in ("button", "display"):
                d["base"], d["morphed"] = draw(st.one_of(st.just([None, None]), st.tuples(gens.color, gens.color)))
                d["fix"] = draw(gens.rarely(gens.color, None, 6)) if k == "button" else None
            else:
                d.update(rig=draw(st.integers(1, 5)), always=draw(st.booleans()))
            sw.append(d)
        seen = set()
        sw = [s for s in sw if s["k"] != "fx" or not (s["num"] in seen or seen.add(s["num"]))]
        n = len(sw)
        pedal = draw(gens.rarely(st.just(True), False, 2))
        ops = []
        for _ in range(draw(st.integers(2, 14))):
            k = draw(st.integers(0, 9))
            if k <= 5:
                ops.append([draw(st.sampled_from(["tap", "tap", "hold"])), draw(st.integers(0, n - 1))])
            elif k == 6 and pedal:
                ops.append(["pedal", draw(st.integers(0, 65535))])
            elif k <= 7:
                ops.append(["rig", draw(st.integers(0, 624))])
            else:
                ops.append(["morph", draw(st.one_of(gens.v14, st.sampled_from([0, 16383, 1, 8191, 8192])))])
        return {"switches": sw, "pedal": pedal, "ops": ops, "bidi": draw(st.booleans()), "again": draw(st.booleans()), "start": draw(st.one_of(st.just(0), gens.v14)), "rig": draw(st.integers(0, 624))}
    return f()


class Morphing(Device):
    again = False

    def on_send(self, r):
        if r[0] == "cc" and r[1] == 80 and r[2]:
            self.set(*MORPH, 0 if self.params[MORPH] > 0 else 16383)
        if r[0] == "cc" and r[1] == 11:
            self.set(*MORPH, round(r[2] * 16383 / 127))
        rig = self.rig
        m = self.params[MORPH]
        super().on_send(r)
        if r[0] == "cc" and 50 <= r[1] <= 54 and r[2] and self.again and self.rig == rig:
            self.set(*MORPH, 0 if m > 0 else 16383)

    def load(self, rig, report=True):
        self.params[MORPH] = 0
        super().load(rig, report)


def near(a, b, tol=1):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def run(case, rec):
    with World() as w:
        FX = w.get("clients.kemper.actions.effect_button", "EFFECT_BUTTON")
        MB, MD = w.get("clients.kemper.actions.morph", "MORPH_BUTTON"), w.get("clients.kemper.actions.morph", "MORPH_DISPLAY")
        RSM = w.get("clients.kemper.actions.rig_select_and_morph_state", "RIG_SELECT_AND_MORPH_STATE")
        inputs, labels, px = [], [], 0
        for i, s in enumerate(case["switches"]):
            lab = label(w, y=30 * i, h=28) if s["label"] else None
            labels.append(lab)
            kw = {"display": lab, "use_leds": s["leds"]}
            if s["k"] == "fx":
                if s["color"]:
                    kw["color"] = tuple(s["color"])
                a = [FX(s["num"], text=s["text"], use_internal_state=s["internal"], **kw)]
            elif s["k"] == "rig":
                a = RSM(s["rig"], rig_btn_morph=case["again"], morph_only_when_enabled=not s["always"], **kw)
            else:
                if s["base"]:
                    kw.update(morph_color_base=tuple(s["base"]), morph_color_morphed=tuple(s["morphed"]))
                if s["fix"]:
                    kw["color"] = tuple(s["fix"])
                a = [(MB if s["k"] == "button" else MD)(**kw)]
            inputs.append({"actions": a, "pixels": list(range(px, px + s["pixels"]))})
            px += s["pixels"]
        if case["pedal"]:
            inputs.append({"kind": "pot", "actions": [w.get("controller.actions.AnalogAction", "AnalogAction")(w.imp("clients.kemper.mappings.morph").MAPPING_MORPH_PEDAL())]})
        app = App(w, inputs, tick_ms=20, splash=splash_callback(w, root(w, [l for l in labels if l])), protocol=w.imp("clients.kemper").KemperBidirectionalProtocol(30) if case["bidi"] else None)
        dev = Morphing(app, rig=case["rig"], bidirectional=case["bidi"], params={MORPH: case["start"]})
        dev.again = case["again"]
        app.init()

        def advance(ms):
            end = w.clock.ms + ms
            while w.clock.ms < end:
                dev.tick()
                app.tick()

        on = [False] * len(case["switches"])
        stats = {"between": 0, "reset": 0, "toggled": 0}

        def check():
            leds = app.leds()
            at = 0
            for i, s in enumerate(case["switches"]):
                mine = range(at, at + s["pixels"])
                at += s["pixels"]
                if s["k"] == "fx":
                    col = tuple(s["color"]) if s["color"] else LGREEN
                    show = on[i] and s["internal"]
                    back, led = tuple(int(c * (1 if show else 0.2)) for c in col), tuple(int(c * (0.3 if show else 0.02)) for c in col)
                    text = s["text"] or "FX " + "I" * s["num"]
                    tol = 1
                elif s["k"] == "rig":
                    continue
                else:
                    base, morphed = (tuple(s["base"]), tuple(s["morphed"])) if s["base"] else (RED, BLUE)
                    f = dev.params[MORPH] / 16383
                    stats["between"] += 0 < f < 1
                    col = tuple(b + (m - b) * f for b, m in zip(base, morphed))
                    if s["fix"]:
                        col = tuple(s["fix"])
                    back, led, text, tol = col, tuple(c * 0.3 for c in col), "Morph", 1.31
                where = lambda: f"switch {i} {s} (morph position {dev.params[MORPH]}, on {on[i]})"
                if labels[i]:
                    expect(labels[i].text == text, lambda: f"{where()} shows {labels[i].text!r}, expected {text!r}")
                    expect(near(labels[i].back_color, back, tol), lambda: f"{where()} has label colour {labels[i].back_color}, expected {back}")
                    expect(all(0 <= c <= 255 for c in labels[i].back_color), lambda: f"{where()} has label colour {labels[i].back_color}")
                if s["leds"]:
                    for q in mine:
                        expect(near(leds[q], led, tol), lambda: f"{where()} has LED {leds[q]}, expected {led}")

        advance(1500)
        dev.report_rig()
        advance(1000)
        check()
        for op in case["ops"]:
            rec.label(op[0])
            dev.received.clear()
            loaded = dev.loaded
            if op[0] == "pedal":
                app.models[-1].value = op[1]
                advance(1000)
                expect(all(r[:2] == ("cc", 11) for r in dev.received), lambda: f"the morph pedal sent {dev.received}")
            elif op[0] == "rig":
                dev.load(op[1])
                advance(1000)
                expect(dev.received == [], lambda: f"a rig change made the controller send {dev.received}")
            elif op[0] == "morph":
                dev.set(*MORPH, op[1])
                advance(1000)
                expect(dev.received == [], lambda: f"a morph change made the controller send {dev.received}")
            else:
                s = case["switches"][op[1]]
                app.press(op[1])
                if op[0] == "hold":
                    advance(700)
                first = list(dev.received)
                app.release(op[1])
                advance(1000)
                last = dev.received[len(first):]
                if s["k"] == "fx":
                    on[op[1]] = not on[op[1]]
                    exp = ([("cc", 74 + s["num"], int(on[op[1]]))], [])
                elif s["k"] == "button":
                    exp = ([("cc", 80, 1)], [("cc", 80, 0)])
                    stats["toggled"] += 1
                elif s["k"] == "display":
                    exp = ([], [])
                else:
                    exp = ([("cc", 49 + s["rig"], 1)], [("cc", 49 + s["rig"], 0)])
                expect((first, last) == exp, lambda: f"{op[0]} of {s} sent {first} on press and {last} on release, expected {exp}")
            if dev.loaded != loaded:
                stats["reset"] += any(on)
                on = [False] * len(on)
            check()
        app.check_wire()
        expect(not dev.unknown, lambda: f"messages the device does not know: {dev.unknown[:3]}")
        rec.nontrivial_if(any(stats.values()))


# ---------------------------------------------------------------- a device which does not report the morph position
def internal_cases():
    @st.composite
    def f(draw):
        sw = []
        for k in ["rig"] + draw(st.lists(st.sampled_from(["rig", "rig", "button", "rigup", "rigdown", "bank", "bankup"]), max_size=3)):
            d = {"k": k}
            if k == "rig":
                d.update(rig=draw(st.integers(1, 5)), bank=draw(st.one_of(st.none(), st.integers(1, 4))), again=draw(gens.rarely(st.just(False), True)), momentary=draw(st.booleans()),
                         plain=draw(st.booleans()), rig_off=draw(gens.rarely(st.integers(1, 5), None, 5)))
            elif k == "bank":
                d["bank"] = draw(st.integers(1, 4))
            sw.append(d)
        ops = [[draw(st.sampled_from(["tap", "hold"])), draw(st.integers(0, len(sw) - 1))] for _ in range(draw(st.integers(2, 12)))]
        first = sw[0]
        at = [draw(st.integers(0, 3)) if first["bank"] is None or draw(st.booleans()) else first["bank"] - 1, draw(st.integers(0, 4)) if draw(st.booleans()) else first["rig"] - 1]
        base, morphed = draw(st.one_of(st.just([None, None]), st.tuples(gens.color, gens.color)))
        return {"switches": sw, "ops": ops, "rig": at[0] * 5 + at[1], "base": base, "morphed": morphed, "bidi": draw(st.booleans())}
    return f()


def run_internal(case, rec):
    """Without reports of the device, the morph displays show what the switches did: another press of the active rig (if it is configured) or of the morph button toggles, every change of the rig resets"""
    with World() as w:
        MB, MD = w.get("clients.kemper.actions.morph", "MORPH_BUTTON"), w.get("clients.kemper.actions.morph", "MORPH_DISPLAY")
        RSM, RS = w.get("clients.kemper.actions.rig_select_and_morph_state", "RIG_SELECT_AND_MORPH_STATE"), w.get("clients.kemper.actions.rig_select", "RIG_SELECT")
        RU, BU = w.imp("clients.kemper.actions.rig_up_down"), w.imp("clients.kemper.actions.bank_up_down")
        BS = w.get("clients.kemper.actions.bank_select", "BANK_SELECT")
        inputs = []
        for s in case["switches"]:
            if s["k"] == "rig":
                f = RS if s["plain"] else RSM
                a = f(s["rig"], rig_off=s["rig_off"], bank=s["bank"], bank_off=1 if s["rig_off"] and s["bank"] else None, rig_btn_morph=s["again"], momentary_morph=s["momentary"], use_leds=False)
            else:
                a = {"button": lambda: MB(use_leds=False), "rigup": lambda: RU.RIG_UP(use_leds=False), "rigdown": lambda: RU.RIG_DOWN(use_leds=False),
                     "bankup": lambda: BU.BANK_UP(use_leds=False), "bank": lambda: BS(s["bank"], use_leds=False)}[s["k"]]()
            inputs.append({"actions": a if isinstance(a, list) else [a]})
        colors = {"morph_color_base": tuple(case["base"]), "morph_color_morphed": tuple(case["morphed"])} if case["base"] else {}
        base, morphed = (tuple(case["base"]), tuple(case["morphed"])) if case["base"] else (RED, BLUE)
        lab = label(w, h=28)
        inputs.append({"actions": [MD(display=lab, **colors)], "pixels": [0, 1]})
        app = App(w, inputs, tick_ms=20, splash=splash_callback(w, root(w, [lab])), protocol=w.imp("clients.kemper").KemperBidirectionalProtocol(30) if case["bidi"] else None)
        dev = Device(app, rig=case["rig"], bidirectional=case["bidi"], params={MORPH: 0})
        app.init()

        def advance(ms):
            end = w.clock.ms + ms
            while w.clock.ms < end:
                dev.tick()
                app.tick()

        full = False

        def check(what):
            exp = morphed if full else base
            expect(near(lab.back_color, exp, 1), lambda: f"{what}: the morph display shows {lab.back_color}, expected the {'morphed' if full else 'unmorphed'} colour {exp} ({case['switches']}, rig {dev.rig})")
            leds = app.leds()
            for q in (0, 1):
                expect(near(leds[q], tuple(c * 0.3 for c in exp), 1.31), lambda: f"{what}: the morph LED shows {leds[q]}, expected the {'morphed' if full else 'unmorphed'} colour {exp}")

        advance(1500)
        dev.report_rig()
        advance(1000)
        check("at the start")
        n = 0
        for op in case["ops"]:
            s = case["switches"][op[1]]
            bank, rig = dev.rig // 5 + 1, dev.rig % 5 + 1
            rec.label(s["k"])
            app.press(op[1])
            held = False
            if s["k"] == "button":
                full = not full
                n += 1
            elif s["k"] == "rig" and s["again"] and s["rig_off"] is None and s["rig"] == rig and s["bank"] in (None, bank):
                held = s["momentary"]
                full = True if held else not full
                n += 1
                rec.label("momentary" if held else "toggled")
            elif not (s["k"] in ("rigup", "rigdown", "bankup") and dev.rig == (bank - 1) * 5 + rig - 1):
                full = False
            advance(800 if op[0] == "hold" else 0)
            if op[0] == "hold":
                check(f"while switch {op[1]} {s} is held at rig {bank}-{rig}")
            app.release(op[1])
            if held:
                full = False
            advance(800)
            check(f"after switch {op[1]} {s} was pressed at rig {bank}-{rig}")
        rec.nontrivial_if(n)


TESTS = [Test("buttons", cases, run, quick=1000, thorough=50000),
         Test("internal", internal_cases, run_internal, quick=500, thorough=20000)]
