from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build
from ..app import App, expect
from .. import gens

ID = "C12"
RULE = ("One to three switches with 0..5 LEDs (in any numbering) and 0..5 actions (normal and hold ones) each, with changing LED usage and enabled states; histories of colour and brightness assignments (single colours and multi colour tuples) to any action; the whole LED strip is compared after each step. Second test: functions which draw on their own (messages, on/off switches, rig and bank switches) are enabled and disabled one by one; after two update periods each LED has to show the function it belongs to. "
        "Non-trivial: at least one switch has two or more enabled LED-using actions, and an LED changed.")
NOTE = "Brightnesses are multiples of 1/8, so that rounding of stored brightnesses does not matter. When the enabled states change, all actions assign their colours again (like the controller does on page changes)."

BR = [0, 0.125, 0.25, 0.5, 1]


def cases():
    @st.composite
    def f(draw):
        switches = []
        for _ in range(draw(st.integers(1, 3))):
            switches.append({"leds": draw(st.integers(0, 5)), "hold": draw(st.booleans()),
                             "actions": draw(st.lists(st.tuples(gens.rarely(st.just(False), True), gens.rarely(st.just(False), True, 3)), min_size=0, max_size=5))})
        flat = [(i, j) for i, s in enumerate(switches) for j in range(len(s["actions"]))]
        color = st.one_of(gens.color, gens.color, st.lists(gens.color, min_size=1, max_size=5))
        ops = []
        if flat:
            for _ in range(draw(st.integers(1, 12))):
                k = draw(st.integers(0, 9))
                t = draw(st.sampled_from(flat))
                if k <= 5:
                    ops.append(["set", t[0], t[1], draw(color), draw(st.sampled_from(BR))])
                elif k <= 6:
                    ops.append(["bright", t[0], t[1], draw(st.sampled_from(BR))])
                else:
                    ops.append(["enable", t[0], t[1], draw(st.booleans())])
        order = draw(st.permutations(range(sum(s["leds"] for s in switches))))
        return {"switches": switches, "order": list(order), "ops": ops}
    return f()


def division(n_leds, users):
    """LED indices per enabled LED-using action, as the property describes it"""
    k = len(users)
    res = {u: [] for u in users}
    if k and k < n_leds:
        first = n_leds - k + 1
        res[users[0]] = list(range(first))
        for n, u in enumerate(users[1:]):
            res[u] = [first + n]
    elif k == 1:
        res[users[0]] = list(range(n_leds))
    else:
        for n, u in enumerate(users[:n_leds]):
            res[u] = [n]
    return res


def run(case, rec):
    with World() as w:
        Action = w.get("controller.actions", "Action")
        Callback = w.get("controller.callbacks", "Callback")

        class Enable(Callback):
            def __init__(self, on):
                super().__init__()
                self.on = on

            def enabled(self, action):
                return self.on

        class Cb(Callback):
            """Draws nothing on its own"""
            def update_displays(self):
                pass

            def push(self):
                pass

            def release(self):
                pass

        order = list(case["order"])
        inputs, actions, enables, pixels = [], [], [], []
        for s in case["switches"]:
            px = [order.pop() for _ in range(s["leds"])]
            pixels.append(px)
            es = [Enable(e) for _, e in s["actions"]]
            acts = [Action({"callback": Cb(), "useSwitchLeds": u, "enableCallback": e}) for (u, _), e in zip(s["actions"], es)]
            half = len(acts) // 2 if s["hold"] else len(acts)
            actions.append(acts)
            enables.append(es)
            inputs.append({"pixels": px, "actions": acts[:half], "actionsHold": acts[half:]})
        app = App(w, inputs)
        app.init()
        app.settle()
        n = len(case["order"])
        contents = {}      # what each (switch, action) shows: (colour, brightness)
        expected = {p: tuple(app.leds()[p]) for p in range(n)}
        changed = shared = 0

        def users(i):
            return [j for j, (u, _) in enumerate(case["switches"][i]["actions"]) if u and enables[i][j].on]

        def assign(i, j, col, br):
            nonlocal changed
            if col is not None:
                actions[i][j].switch_color = tuple(tuple(c) for c in col) if isinstance(col[0], (list, tuple)) else tuple(col)
            actions[i][j].switch_brightness = br
            seg = division(len(pixels[i]), users(i)).get(j, [])
            if col is None:
                col = contents.get((i, j), (None,))[0]
                if col is None:
                    return bool(seg)
            contents[(i, j)] = (col, br)
            for n_, s in enumerate(seg):
                if isinstance(col[0], (list, tuple)):
                    c = col[n_] if len(col) == len(seg) else col[len(col) // 2]
                else:
                    c = col
                p = pixels[i][s]
                new = tuple(int(x * br) for x in c)
                changed += new != expected[p]
                expected[p] = new

        def check(op):
            got = {p: tuple(app.leds()[p]) for p in range(n)}
            expect(got == expected, f"LEDs after {op} are {got}, expected {expected} (switches {case['switches']}, pixels {pixels})")

        # everybody shows something first
        for i, s in enumerate(case["switches"]):
            for j in range(len(s["actions"])):
                if enables[i][j].on:
                    assign(i, j, [30 * j + 10, 80 * i, 255], 1)
        check("start")
        for op in case["ops"]:
            if op[0] == "set":
                assign(*op[1:])
            elif op[0] == "bright":
                if (op[1], op[2]) in contents:
                    assign(op[1], op[2], None, op[3])
            else:
                enables[op[1]][op[2]].on = op[3]
                for j in range(len(actions[op[1]])):
                    if enables[op[1]][j].on:
                        assign(op[1], j, *contents.get((op[1], j), ([99, 100, 101], 0.5)))
            for i in range(len(actions)):
                u = users(i)
                shared += len(u) > 1
                # nobody but LED-using enabled actions has LEDs
                for j, a in enumerate(actions[i]):
                    own = division(len(pixels[i]), u).get(j, [])
                    expect((a.switch_brightness is None) == (not own), f"action {j} of switch {i} {'has no' if own else 'has'} LEDs of its own")
            check(op)
            app.tick()
            check(op)
        rec.nontrivial_if(shared > 0 and changed > 0)
        rec.label("LED changes", changed)


# ------------------------------------------------------------------ functions which draw on their own
def own_cases():
    @st.composite
    def f(draw):
        switches = [{"leds": draw(st.integers(1, 5)), "actions": [
            {"kind": draw(st.sampled_from(["custom", "binary", "binary", "rig", "bank", "rotate"])), "color": draw(gens.color), "on": draw(st.booleans())} for _ in range(draw(st.integers(1, 4)))]} for _ in range(draw(st.integers(1, 2)))]
        flat = [(i, j) for i, s in enumerate(switches) for j in range(len(s["actions"]))]
        ops = []
        for _ in range(draw(st.integers(1, 10))):
            k = draw(st.integers(0, 9))
            if k <= 5:
                ops.append(["enable", *draw(st.sampled_from(flat)), draw(st.booleans())])
            elif k <= 7:
                ops.append(["report", *draw(st.sampled_from(flat)), draw(st.integers(0, 1))])
            else:
                ops.append(["rig", draw(st.integers(0, 19))])
        return {"switches": switches, "ops": ops}
    return f()


def run_own(case, rec):
    with World() as w:
        Callback = w.get("controller.callbacks", "Callback")
        PB = w.get("controller.actions", "PushButtonAction")
        M = w.get("controller.client", "ClientParameterMapping")

        class Enable(Callback):
            def __init__(self, on):
                super().__init__()
                self.on = on

            def enabled(self, action):
                return self.on

        inputs, enables, px = [], [], 0
        for i, s in enumerate(case["switches"]):
            acts, es = [], []
            for j, a in enumerate(s["actions"]):
                e = Enable(a["on"])
                c = tuple(a["color"])
                kw = {"enable_callback": e}
                if a["kind"] == "custom":
                    act = w.get("clients.local.actions.custom", "CUSTOM_MESSAGE")([0xb0, 1, 1], color=c, led_brightness=0.5, **kw)
                elif a["kind"] == "rotate":
                    act = w.get("clients.local.actions.rotate", "ROTATING_MESSAGES")(messages=[[0xb0, 1, 1]], led_colors=[c], led_brightness=0.25, **kw)
                elif a["kind"] == "binary":
                    m = M.get(name="m%d.%d" % (i, j), set=build(("cc", 10 * i + j, 0)), response=build(("cc", 10 * i + j, 0)))
                    act = w.get("clients.local.actions.binary_switch", "BINARY_SWITCH")(m, mode=PB.LATCH, color=c, led_brightness_on=1, led_brightness_off=0.125, **kw)
                elif a["kind"] == "rig":
                    act = w.get("clients.kemper.actions.rig_select", "RIG_SELECT")(rig=j + 1, color=c, display_mode=w.get("clients.kemper.actions.rig_select", "RIG_SELECT_DISPLAY_TARGET_RIG"), **kw)
                else:
                    act = w.get("clients.kemper.actions.bank_select", "BANK_SELECT")(bank=j + 1, color=c, display_mode=w.get("clients.kemper.actions.rig_select", "RIG_SELECT_DISPLAY_TARGET_RIG"), **kw)
                acts.append(act)
                es.append(e)
            inputs.append({"actions": acts, "pixels": list(range(px, px + s["leds"]))})
            enables.append(es)
            px += s["leds"]
        app = App(w, inputs)
        app.init()
        app.settle()
        app.feed(("cc", 32, 0), ("pc", 0))
        rig, state, moved = 0, {}, 0

        def check(op):
            leds = app.leds()
            for i, s in enumerate(case["switches"]):
                users = [j for j in range(len(s["actions"])) if enables[i][j].on]
                for j, seg in division(s["leds"], users).items():
                    a = s["actions"][j]
                    b = {"custom": 0.5, "rotate": 0.25, "binary": 1 if state.get((i, j)) else 0.125, "rig": 0.3 if rig % 5 == j else 0.02, "bank": 0.3 if rig // 5 == j else 0.02}[a["kind"]]
                    for n in seg:
                        got = tuple(leds[inputs[i]["pixels"][n]])
                        expect(all(abs(x - y * b) <= 1 for x, y in zip(got, a["color"])), lambda: f"LED {n} of switch {i} is {got} after {op}, expected {a['color']} with brightness {b} of {a['kind']} action {j} (enabled: {users}, {s})")

        app.settle()
        check("start")
        for op in case["ops"]:
            if op[0] == "enable":
                moved += enables[op[1]][op[2]].on != op[3] and len(case["switches"][op[1]]["actions"]) > 1
                enables[op[1]][op[2]].on = op[3]
            elif op[0] == "report":
                app.feed(("cc", 10 * op[1] + op[2], op[3]))
                state[(op[1], op[2])] = op[3] == 1
            else:
                rig = op[1]
                app.feed(("cc", 32, 0), ("pc", rig))
            app.settle()
            check(op)
        rec.nontrivial_if(moved > 0)


TESTS = [Test("division", cases, run, quick=2500, thorough=80000), Test("functions", own_cases, run_own, quick=1500, thorough=30000)]
