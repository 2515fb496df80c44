from hypothesis import strategies as st
from ..kit import Test
from ..world import World, nrpn_value
from ..app import App, expect
from .. import gens

ID = "C24"
SCALE = 2
RULE = ("Two to ten switches in any strobe order, one or two tuner episodes, each a series of phases of constant deviance with messages at a given rate. From each LED frame the set of possible highlight positions is computed; "
        "their movement is compared with direction and amount of the deviance, the frames are counted against the frame limit. Non-trivial: at least three switches and a phase in which the highlight moves at least a tenth of a cycle.")
NOTE = "The direction cannot be seen with two switches."
ASSUMPTIONS = ["Shape of the highlight: linear, 0.3 cycles to each side, squared (documented in the code only)."]

GRID = 800
COLORS = [(255, 255, 255), (255, 0, 0), (200, 255, 100), (255, 128, 0)]


def cases():
    @st.composite
    def f(draw):
        n = draw(st.integers(2, 10))
        fps = draw(st.sampled_from([20, 60, 120, 120, 400]))
        phases = []
        for _ in range(draw(st.integers(1, 4))):
            if phases and draw(st.integers(0, 2)) == 0:
                # mirrored or larger than the last one
                d = phases[-1]["dev"] - 8191
                d = draw(st.sampled_from([-d, d * 2, d // 2]))
                dev = max(0, min(16383, 8191 + d))
            else:
                dev = draw(st.one_of(st.integers(0, 16383), st.integers(7800, 8600), st.sampled_from([8191, 8192, 0, 16383])))
            phases.append({"dev": dev, "step": draw(st.one_of(st.integers(1, 30), st.integers(30, 200))), "count": draw(st.integers(5, 40))})
        return {"n": n, "order": list(draw(st.permutations(range(n)))), "pixels": draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)), "fps": fps,
                "color": draw(st.integers(0, 3)), "dim": draw(st.sampled_from([0.1, 0.1, 1, 0.5])), "speed": draw(st.sampled_from([1000, 1000, 300, 4000])), "reverse": draw(st.booleans()),
                "phases": phases, "again": draw(st.booleans()), "extra": draw(st.booleans())}
    return f()


def shape(p):
    p %= 1
    return 1 - p / 0.3 if p <= 0.3 else (p - 0.7) / 0.3 if p >= 0.7 else 0


def run(case, rec):
    n = case["n"]
    color = COLORS[case["color"]]
    dim = case["dim"]
    levels = {}
    for k in range(17):
        levels.setdefault(tuple(int(c * (k / 16) ** 2 * dim) for c in color), set()).add(k)
    seen = {}
    interval = int(1000 / case["fps"] * n)
    with World() as w:
        kemper = w.imp("clients.kemper")
        CUSTOM = w.get("clients.local.actions.custom", "CUSTOM_MESSAGE")
        El = w.get("ui.ui", "DisplayElement")
        B = w.get("ui.ui", "DisplayBounds")
        inputs, px = [], 0
        for i in range(n):
            inputs.append({"pixels": list(range(px, px + case["pixels"][i])), "strobeOrder": case["order"][i], "actions": [CUSTOM([0xb0, 1, 1], color=(3, 200, 4), led_brightness=0.5)]})
            px += case["pixels"][i]
        if case["extra"]:
            inputs.insert(1, {"kind": "pot", "actions": []})
        splash = kemper.TunerDisplayCallback(splash_default=El(bounds=B(0, 0, 240, 240)), strobe=True, strobe_color=color, strobe_dim=dim, strobe_speed=case["speed"], strobe_max_fps=case["fps"], strobe_reverse=case["reverse"])
        app = App(w, inputs, splash=splash, tick_ms=1)
        app.init()
        app.settle(300)
        by_order = sorted(range(n), key=lambda i: case["order"][i])
        pins = [i["pixels"] for i in inputs if "pixels" in i]

        def state(v):
            app.feed(nrpn_value(0x7f, 0x7e, v))

        def dev(v):
            app.port.push(nrpn_value(0x7c, 0x0f, v))
            app.tick(1)

        def frame():
            leds = app.leds()
            out = []
            for i in by_order:
                vals = {tuple(leds[p]) for p in pins[i]}
                expect(len(vals) == 1, lambda: f"LEDs of switch {i} differ: {vals}")
                v = vals.pop()
                expect(v in levels, lambda: f"LED {v} of switch {i} is not a brightness of {color} between 0 and {dim}")
                out.append(v)
            return tuple(out)

        def positions(fr, what):
            """All positions of the highlight (in cycles along the strobe order) which look like this"""
            if fr in seen:
                return seen[fr]
            out = seen[fr] = []
            for g in range(GRID):
                p = g / GRID
                for k, v in enumerate(fr):
                    q = shape(k / n - p) * 16
                    if not any(q - 1.3 <= x <= q + 0.3 for x in levels[v]):
                        break
                else:
                    out.append(p)
            expect(out, lambda: f"brightnesses {fr} of the switches in strobe order are not one highlight ({what})")
            return out

        normal = app.leds()
        dev(9000)
        app.run(20)
        dev(7000)
        expect(app.leds() == normal, "strobe runs outside of tuner mode")
        moved_total = 0
        for episode in range(2 if case["again"] else 1):
            state(1)
            expect(all(tuple(x) == (0, 0, 0) for x in app.leds()), lambda: f"LEDs {app.leds()} when tuner mode starts")
            app.run(interval + 2)
            dev(8191)
            positions(frame(), "first frame")
            for ph in case["phases"]:
                d = (ph["dev"] - 8191) * (-1 if case["reverse"] else 1)
                velocity = max(-100 * interval, min(100 * interval, d)) / (case["speed"] * 2000)     # cycles per millisecond
                app.run(interval + 2)
                dev(8191)
                cur = frame()
                possible = positions(cur, "start of phase")
                t0 = w.clock.ms
                last = 0
                changes = 0
                for _ in range(ph["count"]):
                    if ph["step"] > 1:
                        app.run(ph["step"] - 1)
                    dev(ph["dev"])
                    new = frame()
                    passed = w.clock.ms - t0
                    if new != cur:
                        changes += 1
                        here = set(round(x * GRID) for x in positions(new, ph))
                        here = {(x + y) % GRID for x in here for y in (-2, -1, 0, 1, 2)}
                        possible = [x for x in possible if round((x + velocity * passed) * GRID) % GRID in here]
                        expect(possible, lambda: f"highlight moved to {new} after {passed} ms at deviance {ph['dev']} (reverse {case['reverse']}), which is not {velocity * passed:.3f} cycles from its start")
                        cur = new
                        last = passed
                    else:
                        stuck = velocity * max(0, passed - last - 2 * max(interval, ph["step"]))
                        expect(abs(stuck) < 0.2 or abs(velocity) * max(interval, ph["step"]) > 0.05, lambda: f"highlight stands still for {passed - last} ms at deviance {ph['dev']}")
                expect(changes <= passed / max(1, interval) + 1, lambda: f"{changes} frames within {passed} ms, the limit is one per {interval} ms")
                if d == 0:
                    expect(changes == 0, lambda: f"strobe moves ({changes} frames) in tune")
                moved_total = max(moved_total, abs(velocity) * last)
                rec.label("frames", changes)
            app.run(3)
            state(0)
            app.run(30)
            expect(app.leds() == normal, lambda: f"LEDs {app.leds()} after tuner mode, {normal} before")
            dev(9000)
            app.run(interval + 5)
            dev(16000)
            expect(app.leds() == normal, "strobe runs after tuner mode has ended")
        rec.nontrivial_if(n >= 3 and moved_total >= 0.1)


TESTS = [Test("strobe", cases, run, quick=1000, thorough=25000)]
