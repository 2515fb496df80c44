from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect
from .. import gens, mapspec

ID = "C17"
RULE = ("One to three encoder actions on one wheel (control change or NRPN parameters, with or without device feedback, random ranges and step widths including fractions), enabled or disabled at any time; histories of turns over positive and negative positions and device side changes; every message is compared with a reference. "
        "Non-trivial: at least two messages were sent and the wheel was turned in both directions.")
NOTE = "Fractional step widths are multiples of 1/8; scaled positions are truncated towards zero."


def cases():
    @st.composite
    def f(draw):
        acts = []
        for i in range(draw(st.integers(1, 3))):
            spec = draw(st.sampled_from([{"kind": "cc", "c": 10 + i}, {"kind": "nrpn", "manu": 0, "func": 1, "page": 4, "num": i}]))
            top = mapspec.max_value(spec)
            hi = draw(st.one_of(st.none(), st.integers(0, top)))
            acts.append({
                "spec": spec, "max": hi, "min": draw(gens.rarely(st.integers(0, top if hi is None else hi), 0, 3)),
                "step": draw(st.one_of(st.none(), st.sampled_from([1, 2, 10, 0.5, 0.25, 0.125, 1.5, 80]))),
                "feedback": draw(gens.rarely(st.just(False), True)), "request": draw(st.booleans()),
                "value": draw(st.one_of(st.none(), st.integers(0, top))),
                "enabled": draw(gens.rarely(st.just(False), True)),
            })
        ops = []
        for _ in range(draw(st.integers(2, 25))):
            k = draw(st.integers(0, 11))
            i = draw(st.integers(0, len(acts) - 1))
            if k <= 7:
                ops.append(["turn", draw(st.one_of(st.sampled_from([-1, 1, -1, 1, -2, 2, 3]), st.integers(-40, 40), st.integers(-2000, 2000)))])
            elif k <= 9:
                ops.append(["device", i, draw(st.integers(0, mapspec.max_value(acts[i]["spec"])))])
            elif k == 10:
                ops.append(["wait", draw(st.integers(1, 800))])
            else:
                ops.append(["enable", i, draw(st.booleans())])
        return {"actions": acts, "start": draw(st.integers(-5, 5)), "ops": ops}
    return f()


def run(case, rec):
    with World() as w:
        E = w.get("controller.actions.EncoderAction", "EncoderAction")
        Callback = w.get("controller.callbacks", "Callback")
        enabled = [a["enabled"] for a in case["actions"]]

        class Enable(Callback):
            def enabled(self, action):
                return enabled[action.id]

        acts = []
        client = w.get("controller.client", "ClientParameterMapping")
        device = {}
        waiting = set()      # requested while the device did not know the parameter
        for i, a in enumerate(case["actions"]):
            if a["feedback"]:
                m = mapspec.make(w, a["spec"], "m%d" % i, request=a["request"])
            else:
                m = client.get(name="m%d" % i, set=mapspec.set_obj(a["spec"]))
            kw = {}
            for k, name in (("max", "max_value"), ("step", "step_width")):
                if a[k] is not None:
                    kw[name] = a[k]
            if a["min"]:
                kw["min_value"] = a["min"]
            acts.append(E(mapping=m, id=i, enable_callback=Enable(), **kw))
        app = App(w, [{"kind": "encoder", "actions": acts, "position": case["start"]}])
        sets = []

        def on_send(r):
            for i, a in enumerate(case["actions"]):
                if r == mapspec.request_rec(a["spec"]) and a["feedback"]:
                    if device.get(i) is not None:
                        app.port.push(*mapspec.answer_recs(a["spec"], device[i]))
                    else:
                        waiting.add(i)
                    return
            sets.append(r)

        app.port.on_send = on_send
        value = {}
        pos = case["start"]
        steps = [a["step"] if a["step"] is not None else (1 if a["spec"]["kind"] == "cc" else 80) for a in case["actions"]]
        tops = [a["max"] if a["max"] is not None else mapspec.max_value(a["spec"]) for a in case["actions"]]
        app.init()
        for i, a in enumerate(case["actions"]):
            value[i] = None
            if a["value"] is not None and a["feedback"]:
                device[i] = value[i] = a["value"]
        for i, a in enumerate(case["actions"]):
            if value[i] is not None and not a["request"]:
                app.feed(*mapspec.answer_recs(a["spec"], a["value"]))
        app.settle()
        expect(not sets, f"{sets} sent without turning")
        last = [pos] * len(acts)
        both = set()
        total = 0
        for op in case["ops"]:
            sets.clear()
            exp = []
            if op[0] == "turn":
                pos += op[1]
                both.add(op[1] > 0)
                app.models[0].position = pos
                for i, a in enumerate(case["actions"]):
                    d = int(pos * steps[i]) - int(last[i] * steps[i])
                    last[i] = pos
                    if d == 0 or not enabled[i]:
                        continue
                    old = value[i]
                    new = min(tops[i], max(a["min"], (old or 0) + d))
                    value[i] = new
                    device[i] = new
                    if new != old:
                        exp.append(mapspec.set_rec(a["spec"], new))
                app.tick()
            elif op[0] == "device":
                _, i, v = op
                a = case["actions"][i]
                if a["feedback"]:
                    device[i] = value[i] = v
                    if i in waiting or not a["request"]:
                        app.feed(*mapspec.answer_recs(a["spec"], v))
            elif op[0] == "enable":
                enabled[op[1]] = op[2]
                app.tick()
            else:
                app.run(op[1])
            expect(sets == exp, f"{op} (position {pos}) sent {sets}, expected {exp} (history {case['ops']}, actions {case['actions']})")
            total += len(exp)
            sets.clear()
            app.settle()
            expect(not sets, f"{sets} sent without turning after {op}")
        rec.nontrivial_if(total >= 2 and len(both) == 2)
        rec.label("messages", total)


TESTS = [Test("turns", cases, run, quick=1500, thorough=60000)]
