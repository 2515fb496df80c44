from hypothesis import strategies as st
from ..kit import Test
from ..world import World, sense, nrpn_value, nrpn_string, build, KEMPER
from ..app import App, expect, label, root, splash_callback

ID = "C07"
RULE = ("A complete controller with several labels per bidirectional parameter and one polled parameter; histories of device reports (repeated values, too), sets by the user, and losses and recoveries of the connection. "
        "Non-trivial: at least one report or set of an observed parameter and at least one connection loss or second report.")
NOTE = "Labels are read after each step; the reset is due at the next initialization after the loss."

PAGES = {"A": 0x32, "B": 0x33, "C": 0x34, "D": 0x35, "X": 0x38, "MOD": 0x3a}
PARAMS = [("state", i, p, 3) for i, p in enumerate(PAGES.values())] + [("type", i, p, 0) for i, p in enumerate(PAGES.values())] + \
    [("name", None, 0, 1), ("tuner", None, 0x7f, 0x7e), ("note", None, 0x7d, 0x54), ("dev", None, 0x7c, 0x0f)]
CC = {0: 17, 1: 18, 2: 19, 3: 20, 4: 22, 5: 24}


def cases():
    @st.composite
    def f(draw):
        shown = draw(st.lists(st.integers(0, len(PARAMS) - 1), min_size=1, max_size=6))
        ops = []
        for _ in range(draw(st.integers(2, 14))):
            k = draw(st.integers(0, 9))
            p = draw(st.sampled_from(shown)) if draw(st.integers(0, 4)) else draw(st.integers(0, len(PARAMS) - 1))
            if k <= 4:
                ops.append(["report", p, draw(st.integers(0, 3))])
            elif k <= 6:
                ops.append(["set", p, draw(st.integers(0, 1))])
            elif k == 7:
                ops.append(["lose", draw(st.integers(0, 6000))])
            else:
                ops.append(["run", draw(st.integers(0, 700))])
        return {"shown": shown, "polled": draw(st.booleans()), "ops": ops, "lease": draw(st.sampled_from([10, 30])), "tick": draw(st.sampled_from([10, 40]))}
    return f()


def run(case, rec):
    with World() as w:
        K = w.get("clients.kemper", "KemperMappings")
        get = {"state": lambda i: K.EFFECT_STATE(i), "type": lambda i: K.EFFECT_TYPE(i), "name": lambda i: K.RIG_NAME(), "tuner": lambda i: K.TUNER_MODE_STATE(),
               "note": lambda i: K.TUNER_NOTE(), "dev": lambda i: K.TUNER_DEVIANCE()}
        CB = w.get("controller.callbacks.parameter_display", "ParameterDisplayCallback")
        p = w.get("clients.kemper", "KemperBidirectionalProtocol")(time_lease_seconds=case["lease"])
        labels = [label(w, y=20 * i, h=18, callback=CB(get[PARAMS[n][0]](PARAMS[n][1]), default_text="?"), text="?") for i, n in enumerate(case["shown"])]
        polled = w.imp("clients.kemper.mappings.rotary") if case["polled"] else None
        vol = w.imp("clients.kemper.mappings.amp").MAPPING_AMP_GAIN()
        if case["polled"]:
            extra = label(w, y=220, h=20, callback=CB(vol, default_text="?"), text="?")
        app = App(w, [], protocol=p, splash=splash_callback(w, root(w, labels + ([extra] if case["polled"] else []))), tick_ms=case["tick"])
        state = {"alive": True, "next": 0}
        counts = {"polls": 0}

        def on_send(r):
            if r[0] == "sx" and r[1] == KEMPER and len(r[2]) == 6 and r[2][2] & 0x40:
                key = r[2][4:6]
                expect(not any((pg, nr) == key for _, _, pg, nr in PARAMS), f"bidirectional parameter polled with {r}")
                if key == (0x0a, 0x04):
                    counts["polls"] += 1
                    if state["alive"]:
                        app.port.push(nrpn_value(0x0a, 0x04, 77))

        app.port.on_send = on_send

        def go(ms):
            end = w.clock.ms + ms
            while w.clock.ms < end:
                if state["alive"] and w.clock.ms >= state["next"]:
                    app.port.push(sense())
                    state["next"] = w.clock.ms + 400
                app.tick()

        values = {}
        reports = sets = losses = 0

        def check(after):
            for n, l in zip(case["shown"], labels):
                v = values.get(n)
                exp = "?" if v is None else str(v)
                expect(l.text == exp, f"label of {PARAMS[n][:2]} shows {l.text!r}, expected {exp!r} (after {after})")

        app.init()
        go(600)
        check("start")
        for op in case["ops"]:
            if op[0] == "report":
                _, n, v = op
                kind, i, pg, nr = PARAMS[n]
                if kind == "name":
                    val = "rig %d" % v
                    app.port.push(nrpn_string(pg, nr, val, product=0, device=0))
                else:
                    val = v
                    app.port.push(nrpn_value(pg, nr, v, product=0, device=0))
                while app.port.inbox:
                    app.c.tick()
                values[n] = val
                reports += n in case["shown"]
                check(op)
            elif op[0] == "set":
                _, n, v = op
                kind, i, pg, nr = PARAMS[n]
                if kind not in ("state", "tuner"):
                    continue
                m = get[kind](i)
                app.sent()
                app.c.client.set(m, v)
                exp = [("cc", CC[i] if kind == "state" else 31, v)]
                values[n] = v
                sets += n in case["shown"]
                expect(app.sent() == exp, f"setting {kind} to {v} sent something else than {exp}")
                check(op)
            elif op[0] == "run":
                go(op[1])
                check(op)
            else:
                was_on = tuple(p.get_color()) == (0, 255, 0)
                state["alive"] = False
                go(6700 + 3 * case["tick"])
                expect(tuple(p.get_color()) != (0, 255, 0), "still connected without any sense message")
                if was_on:
                    values.clear()
                    losses += 1
                check("loss")
                go(op[1])
                # nothing else happens while it is away
                check("loss, waiting")
                state["alive"] = True
                go(6000)
                expect(tuple(p.get_color()) == (0, 255, 0), "not connected again although the device answers")
                check("recovery")
        if case["polled"]:
            go(500)
            expect(extra.text == "77" and counts["polls"] > 0, "a parameter outside of the bidirectional set is not polled any more")
        rec.nontrivial_if((reports or sets) and (losses or reports > 1))
        rec.label("losses", losses)
        rec.label("sets", sets)


TESTS = [Test("values", cases, run, quick=2000, thorough=80000)]
