from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect

ID = "C09"
RULE = ("A switch with up to four normal and hold actions (nested in lists, too) in any combination, with and without repeat, random hold times; histories of presses and releases with random polling "
        "gaps around the hold time and actions being enabled and disabled at any moment, together with a second switch. Non-trivial: at least one press and one release, and hold actions, a disabled action or a second poll.")
NOTE = "Recording actions derived from the public Action class; the poll times decide what counts as longer than the hold time."


def cases():
    @st.composite
    def f(draw):
        hold = draw(st.integers(0, 3))
        ht = draw(st.one_of(st.none(), st.sampled_from([600, 100, 1, 0]), st.integers(0, 1500)))
        t = 600 if ht is None else ht
        na = draw(st.integers(0, 3))
        ops = []
        for _ in range(draw(st.integers(2, 24))):
            k = draw(st.integers(0, 9))
            if k <= 6:
                dt = draw(st.one_of(st.integers(0, 20), st.sampled_from([max(0, t - 1), t, t + 1, t // 2 + 1, 2 * t + 1]), st.integers(0, 2 * t + 2)))
                ops.append(["poll", draw(st.integers(0, 1)), draw(st.booleans()), dt])
            else:
                ops.append(["enable", draw(st.integers(0, 7)), draw(st.booleans())])
        return {"n": na, "hold": hold, "time": ht, "repeat": draw(st.one_of(st.none(), st.booleans())), "nest": draw(st.booleans()), "ops": ops}
    return f()


class Model:
    """What a switch has to do, poll by poll"""

    def __init__(self, normal, hold, t, repeat):
        self.normal, self.hold, self.t, self.repeat = normal, hold, t, repeat
        self.down = False
        self.since = 0
        self.fired = False
        self.pushed = []

    def poll(self, down, now, enabled):
        out = []
        def fire(names):
            for n in names:
                if enabled[n]:
                    out.extend([("push", n), ("release", n)])
        if down and not self.down:
            self.down = True
            self.since = now
            self.fired = False
            if not self.hold:
                self.pushed = [n for n in self.normal if enabled[n]]
                out += [("push", n) for n in self.pushed]
            return out
        if self.down and self.hold:
            # still held at the last poll: long enough?
            if (self.repeat or not self.fired) and now - self.since > self.t:
                self.fired = True
                self.since = now
                fire(self.hold)
        if not down and self.down:
            self.down = False
            if self.hold:
                if not self.fired:
                    fire(self.normal)
            else:
                out += [("release", n) for n in self.pushed]
                self.pushed = []
        return out


def run(case, rec):
    with World() as w:
        Action = w.get("controller.actions", "Action")
        log = []
        enabled = {}

        class En:
            def __init__(self, name):
                self.name = name

            def init(self, appl):
                pass

            def enabled(self, action):
                return enabled[self.name]

        class Rec(Action):
            def __init__(self, name):
                super().__init__({"enableCallback": En(name)})
                self.name = name
                enabled[name] = True

            def push(self):
                log.append(("push", self.name))

            def release(self):
                log.append(("release", self.name))

        def acts(prefix, n):
            l = [Rec(f"{prefix}{i}") for i in range(n)]
            if case["nest"] and len(l) > 1:
                return [l[:1], l[1:]] if len(l) > 2 else [l]
            return l

        names = [f"a{i}" for i in range(case["n"])]
        hnames = [f"h{i}" for i in range(case["hold"])]
        one = {"actions": acts("a", case["n"]), "actionsHold": acts("h", case["hold"])}
        if case["time"] is not None:
            one["holdTimeMillis"] = case["time"]
        if case["repeat"] is not None:
            one["holdRepeat"] = case["repeat"]
        two = {"actions": [Rec("z0")]}
        app = App(w, [one, two])
        app.init()
        models = [Model(names, hnames, 600 if case["time"] is None else case["time"], bool(case["repeat"])), Model(["z0"], [], 600, False)]
        keys = names + hnames + ["z0"]
        presses = releases = holds = dis = again = 0
        expect(not log, "actions triggered without a press")
        for op in case["ops"]:
            if op[0] == "enable":
                enabled[keys[op[1] % len(keys)]] = op[2]
                dis += not op[2]
                continue
            _, i, down, dt = op
            again += app.models[i].pushed == down
            app.models[i].pushed = down
            log.clear()
            w.clock.advance(dt)
            app.c.tick()
            exp0 = models[0].poll(app.models[0].pushed, w.clock.ms, enabled)
            exp1 = models[1].poll(app.models[1].pushed, w.clock.ms, enabled)
            expect([e for e in log if e[1] != "z0"] == exp0, f"switch with actions {names}, hold {hnames}: triggered {[e for e in log if e[1] != 'z0']}, expected {exp0} at poll {op}")
            expect([e for e in log if e[1] == "z0"] == exp1, f"second switch triggered {[e for e in log if e[1] == 'z0']}, expected {exp1}")
            # Polling again at the same time must not do anything more
            log.clear()
            app.c.tick()
            expect(not log, f"triggered again without any change: {log}")
            presses += any(e[0] == "push" for e in exp0)
            releases += any(e[0] == "release" for e in exp0)
            holds += any(e[1][0] == "h" for e in exp0)
        rec.nontrivial_if(presses and releases and (case["hold"] or dis or again))
        rec.label("hold fired", holds)
        rec.label("presses", presses)


TESTS = [Test("dispatch", cases, run, quick=2000, thorough=80000)]
