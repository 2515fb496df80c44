from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect
from .. import gens, mapspec

ID = "C15"
RULE = ("Pedals on control change or NRPN parameters with random maximum, step count, frame rate, threshold or transfer function; random movements (jumps, sweeps, jitter) and holding times. All positions and sent values of a history are compared with each other and with the ideal linear value. "
        "Non-trivial: at least three different values were sent.")
NOTE = "The maximum is reached exactly when the step width divides the range (the default), and within half a step otherwise."


def cases():
    @st.composite
    def f(draw):
        spec = draw(st.one_of(mapspec.cc_spec, mapspec.nrpn_spec))
        top = mapspec.max_value(spec)
        steps = draw(st.one_of(st.none(), st.sampled_from([2, 16, 64, 128, 256, 1024]), st.integers(1, 2000)))
        raw = st.one_of(st.integers(0, 65535), st.sampled_from([0, 65535, 1023, 1024, 1025, 32768]), st.integers(0, 2000), st.integers(63000, 65535))
        ops = []
        for _ in range(draw(st.integers(2, 20))):
            k = draw(st.integers(0, 4))
            if k == 0:
                ops.append(["sweep", draw(raw), draw(raw), draw(st.integers(1, 12)), draw(st.integers(1, 60))])
            elif k == 1:
                ops.append(["jitter", draw(raw), draw(st.integers(0, 40)), draw(st.integers(1, 10)), draw(st.integers(1, 60))])
            else:
                ops.append(["hold", draw(raw), draw(st.integers(0, 300))])
        return {
            "spec": spec, "max": draw(st.one_of(st.none(), st.none(), st.integers(1, top))), "steps": steps,
            "fps": draw(st.one_of(st.none(), st.sampled_from([1, 24, 100]), st.integers(1, 200))),
            "threshold": draw(st.one_of(st.just("default"), st.none(), st.integers(0, 65535))),
            "fn": draw(gens.rarely(st.integers(1, 127), None, 3)), "tick": draw(st.sampled_from([1, 5, 10, 30])), "ops": ops,
            "extra": draw(st.booleans()),
        }
    return f()


class Watch:
    """Collects (time, value) of the messages of one pedal"""

    def __init__(self, w, app, spec):
        self.w, self.spec = w, spec
        self.sent = []
        app.port.on_send = self._on

    def _on(self, r):
        v = r[2] if r[0] == "cc" else (r[2][6] * 128 + r[2][7])
        expect(r == mapspec.set_rec(self.spec, v), f"{r} is not a message of the parameter {self.spec}")
        self.sent.append((self.w.clock.ms, v))


def run(case, rec):
    with World() as w:
        A = w.get("controller.actions.AnalogAction", "AnalogAction")
        spec = case["spec"]
        top = case["max"] if case["max"] is not None else mapspec.max_value(spec)
        kw = {}
        if case["max"] is not None:
            kw["max_value"] = case["max"]
        if case["steps"] is not None:
            kw["num_steps"] = case["steps"]
        if case["fps"] is not None:
            kw["max_frame_rate"] = case["fps"]
        if case["threshold"] != "default":
            kw["min_raw_value"] = case["threshold"]
        if case["fn"]:
            kw["transfer_function"] = lambda raw, n=case["fn"]: raw * (n + 1) // 65536
        threshold = 1024 if case["threshold"] == "default" else (case["threshold"] or 0)
        period = 1000 / (case["fps"] or 24)
        step = 65536 // (case["steps"] or 128)
        half = step / 2 / (65536 / (top + 1))
        pedal = A(mapping=mapspec.make(w, spec, "pedal", request=False), **kw)
        app = App(w, [{"kind": "pot", "actions": [pedal]}] + ([{"actions": []}] if case["extra"] else []), tick_ms=case["tick"])
        app.init()
        watch = Watch(w, app, spec)
        seen = {}        # position -> value
        passes = {w.clock.ms: None}

        def move(pos, ms):
            """Holds the position for this time"""
            app.models[0].value = pos
            n = len(watch.sent)
            app.run(max(ms, 1))
            for _, v in watch.sent[n:]:
                expect(seen.get(pos, v) == v, f"position {pos} sends {v} now, and sent {seen.get(pos)} before")
                seen[pos] = v
            if ms > period + 2 * case["tick"] + 2:
                # it is held long enough: its value has been sent
                expect(watch.sent, f"nothing sent for position {pos}")
                v = watch.sent[-1][1]
                expect(seen.get(pos, v) == v, f"position {pos} is held, but the last value sent is {v} instead of {seen.get(pos)}")
                seen[pos] = v

        for op in case["ops"]:
            if op[0] == "sweep":
                _, a, b, n, ms = op
                for i in range(n + 1):
                    move(a + (b - a) * i // n, ms)
            elif op[0] == "jitter":
                _, a, d, n, ms = op
                for i in range(n):
                    move(max(0, min(65535, a + (d if i % 2 else -d))), ms)
            else:
                move(op[1], op[2])
        # finally go through the ends slowly
        long = int(period) + 3 * case["tick"] + 10
        for pos in (0, 65535, threshold - 1 if threshold else 0, 0):
            move(pos, long)

        for (t0, v0), (t1, v1) in zip(watch.sent, watch.sent[1:]):
            expect(v0 != v1, f"value {v0} sent twice in a row")
            expect(t1 - t0 > period - 1, f"values sent after {t1 - t0} ms, the frame rate allows {period:.1f} ms")
        last = None
        for pos in sorted(seen):
            v = seen[pos]
            if case["fn"]:
                expect(v == pos * (case["fn"] + 1) // 65536, f"transfer function not applied: position {pos} sends {v}")
                continue
            expect(isinstance(v, int) and 0 <= v <= top, f"value {v} out of range 0..{top}")
            expect(last is None or v >= last[1], f"not monotone: {last} but position {pos} sends {v}")
            last = (pos, v)
            if pos < threshold:
                expect(v == 0, f"position {pos} is below the threshold {threshold} but sends {v}")
            else:
                ideal = pos / 65536 * (top + 1)
                expect(abs(v - ideal) <= half + 1.001, f"position {pos} sends {v}, the ideal value is {ideal:.1f} with steps of {2 * half:.1f}")
        if not case["fn"]:
            expect(seen[0] == 0, f"bottom position sends {seen[0]}")
            if threshold <= 65535:
                expect(seen[65535] == top if 65536 % step == 0 else seen[65535] >= top - half - 1, f"top position sends {seen[65535]} of {top}")
        rec.nontrivial_if(len({v for _, v in watch.sent}) >= 3)
        rec.label("values sent", len(watch.sent))


# ---------------------------------------------------------------------------------------------------
# A disabled pedal sends nothing, and the one of the current page only
def page_cases():
    return st.fixed_dictionaries({
        "moves": st.lists(st.tuples(st.integers(0, 65535), st.integers(0, 2)), min_size=1, max_size=15),
    })


def run_page(case, rec):
    with World() as w:
        A = w.get("controller.actions.AnalogAction", "AnalogAction")
        Callback = w.get("controller.callbacks", "Callback")
        cur = [0]

        class Enable(Callback):
            def enabled(self, action):
                return action.id == cur[0]

        specs = [{"kind": "cc", "c": 10 + i} for i in range(3)]
        e = Enable()
        pedals = [A(mapping=mapspec.make(w, s, "p%d" % i, request=False), id=i, enable_callback=Enable()) for i, s in enumerate(specs)]
        app = App(w, [{"kind": "pot", "actions": pedals}])
        app.init()
        last = {}
        app.run(100)
        app.sent()
        last = {0: 0}
        n = 0
        for pos, page in case["moves"]:
            cur[0] = page
            app.models[0].value = pos
            app.run(100)
            exp = min(127, int(round(pos / 512) * 512 / 512)) if pos >= 1024 else 0
            got = app.sent()
            want = [("cc", 10 + page, exp)] if last.get(page) != exp else []
            expect(got == want, f"page {page}, position {pos}: sent {got}, expected {want}")
            last[page] = exp
            n += len(got)
        rec.nontrivial_if(n > 1)


TESTS = [Test("pedal", cases, run, quick=1500, thorough=60000),
         Test("pages", page_cases, run_page, quick=150, thorough=4000)]
