from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect

ID = "C10"
RULE = ("All modes with random hold times; histories of presses, releases, polling, device feedback and resets with times around the hold time, compared with a state machine per mode written from the documentation. "
        "Non-trivial: at least one press and release with a change of state.")
NOTE = "The set operations are counted at the callback of the action."

MODES = ["ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE", None]


def cases():
    @st.composite
    def f(draw):
        ht = draw(st.one_of(st.none(), st.sampled_from([600, 100, 0]), st.integers(0, 1500)))
        t = 600 if ht is None else ht
        ops = []
        for _ in range(draw(st.integers(2, 20))):
            k = draw(st.integers(0, 9))
            if k <= 6:
                ops.append(["press" if draw(st.booleans()) else "release", draw(st.one_of(st.integers(0, 20), st.sampled_from([max(0, t - 1), t, t + 1, 2 * t + 2])))])
            elif k <= 8:
                ops.append(["feedback", draw(st.booleans())])
            else:
                ops.append(["wait", draw(st.integers(0, 2 * t + 10))])
        return {"mode": draw(st.sampled_from(MODES)), "time": ht, "ops": ops}
    return f()


def run(case, rec):
    with World() as w:
        PB = w.get("controller.actions", "PushButtonAction")
        Callback = w.get("controller.callbacks", "Callback")
        calls = []

        class CB(Callback):
            def state_changed_by_user(self):
                calls.append(self.action.state)

            def update_displays(self):
                pass

        cfg = {"callback": CB()}
        mode = case["mode"] or "HOLD_MOMENTARY"
        if case["mode"]:
            cfg["mode"] = getattr(PB, mode)
        if case["time"] is not None:
            cfg["holdTimeMillis"] = case["time"]
        t = 600 if case["time"] is None else case["time"]
        a = PB(cfg)
        app = App(w, [{"actions": [a]}])
        app.init()
        state = False
        down = False
        since = 0
        changes = 0
        expect(a.state is False, "initial state is not off")
        for op in case["ops"]:
            calls.clear()
            exp = []
            if op[0] == "wait":
                app.tick(op[1])
            elif op[0] == "feedback":
                a.feedback_state(op[1])
                state = op[1]
            else:
                d = op[0] == "press"
                app.models[0].pushed = d
                app.tick(op[1])
                new = state
                if d and not down:
                    since = w.clock.ms
                    new = {"ENABLE": True, "DISABLE": False, "LATCH": not state, "MOMENTARY": True, "MOMENTARY_INVERSE": False,
                           "HOLD_MOMENTARY": not state, "ONE_SHOT": True, "NO_STATE_CHANGE": state}[mode]
                    if new != state or mode == "ONE_SHOT":
                        exp = [new]
                elif down and not d:
                    if mode == "MOMENTARY":
                        new = False
                    elif mode == "MOMENTARY_INVERSE":
                        new = True
                    elif mode == "HOLD_MOMENTARY" and w.clock.ms - since > t:
                        new = not state
                    if new != state:
                        exp = [new]
                    if mode == "ONE_SHOT":
                        new = False
                changes += len(exp)
                down = d
                state = new
            expect(a.state == state, f"mode {mode}: state {a.state} after {op} in {case['ops']}, expected {state}")
            expect(calls == exp, f"mode {mode}: set operations {calls} by {op} in {case['ops']}, expected {exp}")
        rec.nontrivial_if(changes > 0)
        rec.label(mode)
        rec.label("changes", changes)


TESTS = [Test("modes", cases, run, quick=2700, thorough=80000)]
