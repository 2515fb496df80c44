from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect, label, root, splash_callback
from .. import gens

ID = "C35"
RULE = ("One to four keyboard switches with one or several key codes (as number, list or tuple, from the list of key codes of the library), on short press, hold and several actions per switch, with and without a keyboard host; histories of taps, holds, time and MIDI input; "
        "the key log is compared after each step. Non-trivial: a switch with several key codes was used, and at least two presses happened.")
NOTE = "If the host refuses the keyboard (no USB host), nothing may be sent and nothing may fail."


def cases():
    @st.composite
    def f(draw):
        codes = st.one_of(st.integers(4, 101), st.integers(0xe0, 0xe7))
        act = st.fixed_dictionaries({"codes": st.lists(codes, min_size=1, max_size=5), "how": st.sampled_from(["list", "tuple", "one"]), "color": gens.color, "b": st.sampled_from([0.125, 0.5, 1]), "text": st.sampled_from(["a", "Left", ""])})
        sw = [{"actions": draw(st.lists(act, min_size=1, max_size=2)), "hold": draw(gens.rarely(st.lists(act, min_size=1, max_size=2), [], 2)), "pixels": draw(st.integers(0, 2)), "label": draw(st.booleans())} for _ in range(draw(st.integers(1, 4)))]
        ops = [draw(st.one_of(st.tuples(st.just("tap"), st.integers(0, len(sw) - 1), st.sampled_from([10, 10, 300, 900])), st.tuples(st.just("wait"), st.integers(1, 500), st.just(0)))) for _ in range(draw(st.integers(1, 10)))]
        return {"switches": sw, "ops": ops, "host": draw(gens.rarely(st.just(False), True, 5))}
    return f()


def keys(act):
    return act["codes"][:1] if act["how"] == "one" else act["codes"]


def run(case, rec):
    with World() as w:
        HID = w.get("clients.local.actions.hid", "HID_KEYBOARD")
        hw = w.hw
        labels, inputs, px, shown = [], [], 0, []
        for s in case["switches"]:
            d = None
            if s["label"]:
                d = label(w, y=18 * len(labels), h=18)
                labels.append(d)
            shown.append(d)

            def make(a, **kw):
                v = a["codes"][0] if a["how"] == "one" else (tuple if a["how"] == "tuple" else list)(a["codes"])
                return HID(v, text=a["text"], color=tuple(a["color"]), led_brightness=a["b"], **kw)

            inp = {"actions": [make(a, **({"display": d} if n == 0 else {"use_leds": False})) for n, a in enumerate(s["actions"])], "pixels": list(range(px, px + s["pixels"]))}
            if s["hold"]:
                inp["actionsHold"] = [make(a, use_leds=False) for a in s["hold"]]
                inp["holdTimeMillis"] = 600
            inputs.append(inp)
            px += s["pixels"]
        if not case["host"]:
            hw.hid_refuse = True
        app = App(w, inputs, splash=splash_callback(w, root(w, labels)))
        app.init()
        app.settle()
        presses = several = 0
        for op in case["ops"]:
            hw.hid_log.clear()
            exp = []
            if op[0] == "tap":
                s = case["switches"][op[1]]
                app.press(op[1])
                app.run(op[2])
                app.release(op[1])
                acts = s["hold"] if s["hold"] and op[2] > 600 else s["actions"]
                exp = [c for a in acts for c in keys(a)]
                presses += 1
                several += any(len(keys(a)) > 1 for a in acts)
            else:
                app.run(op[1])
            # each key pressed is released again at once
            got, held = [], set()
            for e in hw.hid_log:
                if e[0] == "send":
                    got += list(e[1:])
                elif e[0] == "press":
                    got += list(e[1:])
                    held |= set(e[1:])
                elif e[0] == "release":
                    held -= set(e[1:])
                else:
                    held.clear()
            expect(got == (exp if case["host"] else []), lambda: f"{op} sent keys {hw.hid_log}, expected {exp}")
            expect(not held, lambda: f"keys {held} are still pressed after {op}: {hw.hid_log}")
            expect(not app.sent(), "MIDI message sent by a keyboard switch")
            for i, s in enumerate(case["switches"]):
                a = s["actions"][0]
                for p in inputs[i]["pixels"]:
                    expect(tuple(app.leds()[p]) == tuple(int(x * a["b"]) for x in a["color"]), lambda: f"LED of switch {i} is {app.leds()[p]}, expected {a}")
                if shown[i]:
                    expect(shown[i].text == a["text"] and tuple(shown[i].back_color) == tuple(a["color"]), lambda: f"label of switch {i} shows {shown[i].text!r} {shown[i].back_color}, expected {a}")
        rec.nontrivial_if(several and presses > 1)


TESTS = [Test("keys", cases, run, quick=900, thorough=15000)]
