from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect
from .. import mapspec
from .c15_pedal import Watch

ID = "C16"
RULE = ("Auto calibrating pedals with random window, maximum, steps and threshold; arbitrary sequences of positions, each held until it has been read. The range seen so far is tracked by the check. "
        "Non-trivial: the window was reached after at least one position without, and at least two values were sent.")
NOTE = "Every position is held for longer than the frame period, so that the pedal has seen exactly the generated positions. A transfer function gets raw values within 0..65535."


def cases():
    @st.composite
    def f(draw):
        lo = draw(st.integers(0, 65535))
        hi = draw(st.integers(lo, 65535))
        pos = st.one_of(st.integers(0, 65535), st.integers(lo, hi), st.integers(lo, hi), st.sampled_from([lo, hi]))
        return {
            "spec": draw(st.one_of(mapspec.cc_spec, mapspec.nrpn_spec)),
            "window": draw(st.one_of(st.none(), st.sampled_from([0, 0.25, 0.5]), st.integers(0, 100).map(lambda x: x / 100))),
            "steps": draw(st.sampled_from([None, 128, 64, 100, 1000])),
            "threshold": draw(st.sampled_from(["default", None, 0, 5000])),
            "pos": draw(st.lists(pos, min_size=2, max_size=25)),
        }
    return f()


def run(case, rec):
    with World() as w:
        A = w.get("controller.actions.AnalogAction", "AnalogAction")
        spec = case["spec"]
        top = mapspec.max_value(spec)
        kw = {"auto_calibrate": True}
        if case["window"] is not None:
            kw["cal_min_window"] = case["window"]
        if case["steps"] is not None:
            kw["num_steps"] = case["steps"]
        if case["threshold"] != "default":
            kw["min_raw_value"] = case["threshold"]
        threshold = 1024 if case["threshold"] == "default" else (case["threshold"] or 0)
        window = 65536 * (0.25 if case["window"] is None else case["window"])
        step = 65536 // (case["steps"] or 128)
        half = step / 2 / (65536 / (top + 1))
        pedal = A(mapping=mapspec.make(w, spec, "pedal", request=False), **kw)
        app = App(w, [{"kind": "pot", "actions": [pedal], "value": case["pos"][0]}], tick_ms=10)
        watch = Watch(w, app, spec)
        app.init()
        lo = hi = None
        current = None      # value the device has
        silent = 0
        values = {}         # position -> value with the present range
        for pos in case["pos"]:
            app.models[0].value = pos
            n = len(watch.sent)
            app.run(80)
            new = watch.sent[n:]
            old_range = (lo, hi)
            lo, hi = (pos, pos) if lo is None else (min(lo, pos), max(hi, pos))
            if (lo, hi) != old_range:
                values = {}
            expect(len(new) <= 1, f"{len(new)} values sent for one position")
            if hi == lo or hi - lo < int(window):
                expect(not new, f"{new} sent although only the positions {lo}..{hi} have been seen (window {window})")
                silent += 1
                continue
            if new:
                expect(new[0][1] != current, "value sent twice in a row")
                current = new[0][1]
            elif current is None:
                expect(False, f"nothing sent although the positions {lo}..{hi} have been seen (window {window})")
            v = current
            expect(isinstance(v, int) and 0 <= v <= top, f"value {v} out of range")
            expect(values.setdefault(pos, v) == v, f"position {pos} sends {v}, before it was {values[pos]}")
            if pos == lo:
                expect(v == 0, f"lowest position {pos} sends {v}")
            if pos == hi and threshold < 65535:
                expect(v >= top - (0 if 65536 % step == 0 else half + 1), f"highest position {pos} of {lo}..{hi} sends {v} of {top}")
            ideal = (pos - lo) / (hi - lo) * 65536
            if ideal >= threshold + 1:
                expect(abs(v - ideal / 65536 * (top + 1)) <= half + 1.01 + (top + 1) / 65536, f"position {pos} of {lo}..{hi} sends {v}, expected about {ideal / 65536 * (top + 1):.1f}")
            elif ideal < threshold - 1:
                expect(v == 0, f"scaled position {ideal:.0f} is below the threshold {threshold} but sends {v}")
            for p2, v2 in values.items():
                expect((p2 <= pos) <= (v2 <= v) and (p2 >= pos) <= (v2 >= v), f"not monotone: {p2} sends {v2}, {pos} sends {v} in the range {lo}..{hi}")
        rec.nontrivial_if(silent and len({v for _, v in watch.sent}) >= 2)
        rec.label("values sent", len(watch.sent))


# ---------------------------------------------------------------- transfer functions

def transfer_cases():
    @st.composite
    def f(draw):
        lo = draw(st.integers(0, 65535))
        hi = draw(st.integers(lo, 65535))
        pos = st.one_of(st.integers(0, 65535), st.integers(lo, hi), st.sampled_from([lo, hi]))
        return {"window": draw(st.one_of(st.none(), st.integers(0, 100).map(lambda x: x / 100))), "calibrate": draw(st.integers(0, 3)) > 0, "div": draw(st.sampled_from([512, 1024, 600])), "pos": draw(st.lists(pos, min_size=2, max_size=25))}
    return f()


def run_transfer(case, rec):
    with World() as w:
        A = w.get("controller.actions.AnalogAction", "AnalogAction")
        spec = {"kind": "cc", "c": 7}
        raws = []

        def transfer(raw):
            raws.append(raw)
            return raw // case["div"]

        kw = {"auto_calibrate": case["calibrate"]}
        if case["window"] is not None:
            kw["cal_min_window"] = case["window"]
        pedal = A(mapping=mapspec.make(w, spec, "pedal", request=False), transfer_function=transfer, **kw)
        app = App(w, [{"kind": "pot", "actions": [pedal], "value": case["pos"][0]}], tick_ms=10)
        watch = Watch(w, app, spec)
        app.init()
        window = int(65536 * (0.25 if case["window"] is None else case["window"]))
        lo = hi = None
        current = None
        used = 0
        for pos in case["pos"]:
            app.models[0].value = pos
            raws.clear()
            n = len(watch.sent)
            app.run(80)
            lo, hi = (pos, pos) if lo is None else (min(lo, pos), max(hi, pos))
            new = [v for _, v in watch.sent[n:]]
            if case["calibrate"] and (hi == lo or hi - lo < window):
                expect(not raws and not new, lambda: f"{raws} passed although only {lo}..{hi} have been seen (window {window})")
                continue
            expect(raws and len(set(raws)) == 1, lambda: f"position {pos} is passed as {sorted(set(raws))}")
            raw = raws[0]
            expect(isinstance(raw, int) and 0 <= raw <= 65535, lambda: f"position {pos} is passed as {raw!r} (seen {lo}..{hi})")
            if case["calibrate"]:
                expect(abs(raw - (pos - lo) * 65535 / (hi - lo)) <= 2, lambda: f"position {pos} of {lo}..{hi} is passed as {raw}")
                used += 1
            else:
                expect(raw == pos, lambda: f"position {pos} is passed as {raw}")
            v = raw // case["div"]
            expect(new == ([v] if v != current else []), lambda: f"position {pos} sends {new}, expected {v} (before: {current})")
            current = v
        rec.nontrivial_if(used >= 3)


TESTS = [Test("calibration", cases, run, quick=1500, thorough=60000), Test("transfer", transfer_cases, run_transfer, quick=600, thorough=30000)]
