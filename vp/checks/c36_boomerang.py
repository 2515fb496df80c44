from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect, label, root, splash_callback
from .. import gens
from .c12_leds import division

ID = "C36"
RULE = ("One to six switches with Boomerang functions (all twelve) with random colours, brightnesses, texts and numbers of LEDs; histories of overlapping presses; the program changes (alternating between the two documented numbers of the function, channel 16), "
        "LEDs and labels are compared with a table after each step. Non-trivial: two different functions were used, one of them at least three times.")
NOTE = "The documentation of the looper itself is not part of the repository; the table is transcribed from the source and examples."

# two program numbers, default text, default colour
TABLE = {
    "PLAY_STOP_ALL": (17, 25), "SYNC_SERIAL": (43, 65), "MUTE_THRU": (3, 8), "PANIC": (11, 40), "ERASE": (16, 61), "ERASE_ALL": (28, 35),
    "STACK": (15, 23), "COPY": (1, 4), "FADE": (21, 32), "OCTAVE": (2, 49), "ONCE": (10, 18), "REVERSE": (47, 56),
}


def cases():
    @st.composite
    def f(draw):
        sw = []
        for _ in range(draw(st.integers(1, 6))):
            n = draw(st.sampled_from([1, 1, 1, 2, 3]))
            sw.append({"f": draw(st.sampled_from(sorted(TABLE))), "n": n, "pixels": draw(st.integers(0, 3)) if n == 1 else draw(st.integers(n, 4)), "color": draw(gens.color), "text": draw(st.sampled_from(["foo", "bar"])),
                       "b": draw(st.one_of(st.none(), st.tuples(st.sampled_from([0, 0.25, 1]), st.sampled_from([0, 0.125, 0.5])))), "label": draw(gens.rarely(st.just(False), True))})
        ops = [[draw(st.sampled_from(["tap", "tap", "press", "release"])), draw(st.integers(0, len(sw) - 1))] for _ in range(draw(st.integers(2, 14)))]
        return {"switches": sw, "ops": ops}
    return f()


def run(case, rec):
    with World() as w:
        mod = w.imp("clients.boomerang.actions.boomerang")
        labels, inputs, px, shown = [], [], 0, []
        for s in case["switches"]:
            d = None
            if s["label"]:
                d = label(w, y=18 * len(labels), h=18)
                labels.append(d)
            shown.append(d)
            kw = {} if s["b"] is None else {"led_brightness_1": s["b"][0], "led_brightness_2": s["b"][1]}
            a = getattr(mod, "BOOMERANG_" + s["f"])(display=d, color=tuple(s["color"]), text=s["text"], num_leds=s["n"], **kw)
            inputs.append({"actions": a if isinstance(a, list) else [a], "pixels": list(range(px, px + s["pixels"]))})
            px += s["pixels"]
        app = App(w, inputs, splash=splash_callback(w, root(w, labels)))
        app.init()
        app.settle()
        pos = [0] * len(inputs)
        down = [False] * len(inputs)
        used = {}

        def check(op):
            for i, s in enumerate(case["switches"]):
                b1, b2 = s["b"] or (0.3, 0.02)
                n = s["n"]
                for j, seg in division(s["pixels"], list(range(n))).items():
                    lit = pos[i] % 2 == 0 if n == 1 else pos[i] % n == n - 1 - j
                    for k in seg:
                        got = tuple(app.leds()[inputs[i]["pixels"][k]])
                        expect(all(abs(x - y * (b1 if lit else b2)) <= 1 for x, y in zip(got, s["color"])), lambda: f"LED {k} of switch {i} is {got} after {op}, expected {s['color']} with {b1 if lit else b2} (after {pos[i]} presses of {s})")
                if shown[i]:
                    expect(shown[i].text == s["text"] and tuple(shown[i].back_color) == tuple(s["color"]), lambda: f"label of switch {i} shows {shown[i].text!r} {shown[i].back_color}, expected {s}")

        check("start")
        app.sent()
        for kind, i in case["ops"]:
            s = case["switches"][i]
            if kind != "release" and not down[i]:
                app.press(i)
                down[i] = True
                exp = TABLE[s["f"]][pos[i] % 2]
                got = [list(r[1:]) if r[0] == "raw" else r for r in app.sent()]
                expect(got == [[0xcf, exp]] or got == [("pc", exp)], lambda: f"press number {pos[i] + 1} of {s['f']} sent {got}, expected program change {exp} on channel 16")
                used[s["f"]] = used.get(s["f"], 0) + 1
            if kind != "press" and down[i]:
                app.release(i)
                down[i] = False
                pos[i] += 1
                got = app.sent()
                expect(not got, lambda: f"releasing {s['f']} sent {got}")
            check([kind, i])
        app.settle()
        check("end")
        expect(not app.sent(), "messages sent without a press")
        rec.nontrivial_if(len(used) > 1 and max(used.values()) > 2)


TESTS = [Test("boomerang", cases, run, quick=800, thorough=12000)]
