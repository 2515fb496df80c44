from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect, label, root, splash_callback, text_source
from ..kemperdev import Device, BPM, TUNER
from .. import gens

ID = "C32"
RULE = ("Configurations of tempo displays (text templates, colours, brightnesses, with and without label and temporary display), tempo labels, tap switches and tempo wheels on a device model; histories of tempo changes, beat signals, taps, "
        "rig changes, tuner mode and time; messages, LEDs and labels are compared with the device after each step. Second test: the text of every one of the 16384 tempo values. "
        "Non-trivial: the tempo changed at least once after start and at least one beat was signalled.")
NOTE = "Tempo values exactly between two displayed numbers may be rounded in either direction."

PULSE = (0x7c, 0)


def ok_bpm(text, v, template):
    return text in {template.replace("{bpm}", str(n)) for n in ((v + 31) // 64, (v + 32) // 64)}


def cases():
    @st.composite
    def f(draw):
        shows = [{"label": draw(gens.rarely(st.just(False), True)), "change": draw(gens.rarely(st.booleans(), False, 2)), "timeout": draw(st.sampled_from([1500, 300, 3000])),
                  "color": draw(gens.color), "text": draw(st.sampled_from(["{bpm} bpm", "{bpm}", "T {bpm}/{bpm}", "fix"])), "b": draw(st.sampled_from([0.02, 0.5, 1])),
                  "pixels": draw(st.integers(0, 3))} for _ in range(draw(st.integers(1, 3)))]
        taps = draw(st.integers(0, 2))
        wheel = draw(gens.rarely(st.sampled_from([None, 64, 10, 640]), 0, 2))
        bpm = st.one_of(st.integers(20, 250).map(lambda x: x * 64), gens.v14, st.integers(1, 255).map(lambda x: 64 * x - 32), st.integers(1, 255).map(lambda x: 64 * x - 31), st.integers(1, 255).map(lambda x: 64 * x - 33))
        ops = []
        for _ in range(draw(st.integers(2, 14))):
            k = draw(st.integers(0, 11))
            if k <= 3:
                ops.append(["bpm", draw(bpm)])
            elif k <= 6:
                ops.append(["beat", draw(st.sampled_from([1, 0, 1, 0, 127, 64]))])
            elif k == 7 and taps:
                ops.append(["tap", draw(st.integers(0, taps - 1)), draw(st.sampled_from([0, 100, 600]))])
            elif k == 8 and wheel != 0:
                ops.append(["wheel", draw(st.integers(-5, 5))])
            elif k == 9:
                ops.append(["tuner", draw(st.integers(0, 1))])
            elif k == 10:
                ops.append(["rig", draw(st.integers(0, 624)), draw(bpm)])
            else:
                ops.append(["wait", draw(st.integers(1, 3500))])
        return {"shows": shows, "taps": taps, "wheel": wheel, "start": draw(bpm), "ops": ops, "bidi": draw(st.booleans()), "plain": draw(st.booleans())}
    return f()


def run(case, rec):
    with World() as w:
        SHOW = w.get("clients.kemper.actions.tempo", "SHOW_TEMPO")
        TAP = w.get("clients.kemper.actions.tempo", "TAP_TEMPO")
        labels, inputs, px = [], [], 0
        free = iter(range(100))

        def lab(**kw):
            labels.append(label(w, y=next(free) * 18, h=18, **kw))
            return labels[-1]

        shows = []
        for s in case["shows"]:
            d = lab() if s["label"] else None
            c = lab(text="idle", callback=text_source(w, lambda: "idle")) if s["change"] else None
            shows.append((d, c))
            act = SHOW(display=d, change_display=c, change_timeout_millis=s["timeout"], color=tuple(s["color"]), text=s["text"], led_brightness=s["b"])
            inputs.append({"actions": [act], "pixels": list(range(px, px + s["pixels"]))})
            px += s["pixels"]
        first_tap = len(inputs)
        for _ in range(case["taps"]):
            inputs.append({"actions": [TAP()], "pixels": []})
        wheel = len(inputs)
        if case["wheel"] != 0:
            inputs.append({"kind": "encoder", "actions": [w.get("clients.kemper.actions.tempo_bpm", "ENCODER_BPM")(step_width=case["wheel"])]})
        plain = lab(callback=w.get("clients.kemper.callbacks.tempo_bpm", "KemperTempoDisplayCallback")()) if case["plain"] else None
        app = App(w, inputs, protocol=w.get("clients.kemper", "KemperBidirectionalProtocol")(5) if case["bidi"] else None, splash=splash_callback(w, root(w, labels)))
        dev = Device(app, bidirectional=case["bidi"], params={BPM: case["start"]})
        app.init()
        beat, tuner = None, 0
        shown_since = {}       # number of tempo display -> time until which its text has to be shown temporarily
        moved = beats = 0

        def run_for(ms):
            for _ in range(max(1, ms // 25)):
                dev.tick()
                app.tick(25)

        def check(op):
            leds = app.leds()
            v = dev.params[BPM]
            for n, (s, (d, c)) in enumerate(zip(case["shows"], shows)):
                if beat is not None and not tuner:
                    b = s["b"] if beat else 0
                    for p in inputs[n]["pixels"]:
                        expect(all(abs(x - y * b) <= 1 for x, y in zip(leds[p], s["color"])), lambda: f"LED of tempo display {n} is {leds[p]} after {op}, expected {s['color']} with {b} (last beat signal {beat})")
                if tuner:
                    continue
                if d:
                    expect(ok_bpm(d.text, v, s["text"]), lambda: f"tempo display {n} shows {d.text!r} after {op}, expected {v / 64} bpm in {s['text']!r}")
                    expect(tuple(d.back_color) == tuple(s["color"]), lambda: f"tempo display {n} has colour {d.back_color} after {op}, expected {s['color']}")
            if plain is not None and not tuner:
                expect(ok_bpm(plain.text, v, "{bpm} bpm"), lambda: f"tempo label shows {plain.text!r} after {op}, expected {v / 64} bpm")

        app.settle()
        run_for(450)
        check("start")
        settled = True
        dev.report_rig()
        run_for(450)
        dev.received.clear()
        rig_changed = True
        for op in case["ops"]:
            last, exp = dev.params[BPM], []
            if op[0] in ("bpm", "wheel") and not tuner:
                if op[0] == "bpm":
                    dev.set(*BPM, op[1])
                    run_for(450)
                else:
                    app.models[wheel].position += op[1]
                    run_for(450)
                    step = case["wheel"] or 80
                    v = min(max(last + op[1] * step, 0), 16383)
                    expect(dev.params[BPM] == v, lambda: f"turning the wheel by {op[1]} set the tempo to {dev.params[BPM]}, expected {v}")
                    dev.received.clear()
                if dev.params[BPM] != last:
                    moved += 1
                    for n, (s, (d, c)) in enumerate(zip(case["shows"], shows)):
                        if c and not rig_changed:
                            t = c.override_text
                            if s["timeout"] > 700:
                                expect(t is not None and ok_bpm(t, dev.params[BPM], s["text"]), lambda: f"temporary display of {n} shows {t!r} after {op}, expected {dev.params[BPM] / 64} bpm in {s['text']!r}")
                    rig_changed = False
            elif op[0] == "beat":
                dev.out(("sx", (0, 0x20, 0x33), (2, 0x7f, 1, 0, 0x7c, 0, 0, op[1])))
                run_for(25)
                beat = op[1]
                beats += not tuner
            elif op[0] == "tap":
                i = first_tap + op[1]
                app.press(i)
                run_for(op[2])
                app.release(i)
                exp = [("cc", 30, 1), ("cc", 30, 0)]
            elif op[0] == "rig" and not tuner:
                # nothing temporary is shown because of a rig change
                run_for(3200)
                dev.rig_params = lambda r: {BPM: op[2]}
                before = len(dev.received)
                dev.load(op[1])
                run_for(450)
                for n, (d, c) in enumerate(shows):
                    if c and op[1] != getattr(dev, "_last_rig", 0):
                        expect(c.override_text is None, lambda: f"temporary display of {n} shows {c.override_text!r} after rig change {op}")
                dev._last_rig = op[1]
                dev.rig_params = None
                rig_changed = True
            elif op[0] == "tuner" and case["bidi"]:
                if tuner != op[1]:
                    dev.set(*TUNER, op[1])
                    tuner = op[1]
                    run_for(450)
                    if not tuner:
                        rig_changed = True
            elif op[0] == "wait":
                run_for(op[1])
                if op[1] > 3100:
                    for n, (d, c) in enumerate(shows):
                        expect(c is None or c.override_text is None and c.text == "idle", lambda: f"temporary display of {n} still shows {(c.override_text, c.text)}")
            check(op)
            got, dev.received[:] = list(dev.received), []
            expect(got == exp, lambda: f"{op} sent {got}, expected {exp}")
        rec.nontrivial_if(moved and beats)
        rec.label("tempo changes", moved)
        rec.label("beats", beats)


def text_cases():
    return st.integers(0, 16383).map(lambda v: {"v": v})


def run_text(case, rec):
    v = case["v"]
    with World() as w:
        conv = w.get("clients.kemper.mappings.tempo_bpm", "convert_bpm")
        for x in {v, (v * 7919 + 13) % 16384, 64 * (v % 256) + 32, 64 * (v % 256) + 31, 64 * (v % 256) + 33}:
            if x < 16384:
                expect(ok_bpm(conv(x), x, "{bpm}"), lambda: f"tempo {x} is shown as {conv(x)!r}, it is {x / 64} bpm")
        rec.nontrivial_if(v % 64)


TESTS = [Test("tempo", cases, run, quick=900, thorough=20000), Test("text", text_cases, run_text, quick=300, thorough=6000)]
