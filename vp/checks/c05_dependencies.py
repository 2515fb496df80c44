from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build, nrpn_string
from .. import fakes, mapspec as ms
from ..app import App, expect, label, root, splash_callback

ID = "C05"
RULE = ("Histories of requests for several dependent parameters by several parties, changes of the dependencies, answers and unanswered requests, followed by a reference model; and a "
        "complete controller with several labels showing dependent texts against a device whose rig changes, with random answer delays. Non-trivial: a dependency "
        "changed at least once after it had been seen, and at least two parties asked.")
NOTE = "The device model answers in order; lost answers are explored at the client level only."

DEPS = [{"kind": "str", "manu": 0, "func": 3, "page": 0, "num": 3}, {"kind": "nrpn", "manu": 0, "func": 1, "page": 4, "num": 1}]
PARAMS = [({"kind": "str", "manu": 0, "func": 3, "page": 0, "num": 1}, 0),
          ({"kind": "str", "manu": 0, "func": 3, "page": 0, "num": 0x10}, 0),
          ({"kind": "nrpn", "manu": 0, "func": 1, "page": 9, "num": 1}, 1),
          ({"kind": "cc", "c": 12}, 1)]


def cases():
    @st.composite
    def f(draw):
        n = draw(st.integers(1, len(PARAMS)))
        ops = []
        for _ in range(draw(st.integers(3, 30))):
            k = draw(st.integers(0, 10))
            if k == 10:
                ops.append(["wait"])
            elif k <= 4:
                ops.append(["request", draw(st.integers(0, n - 1)), draw(st.sampled_from([-1, 0, 0, 1, 2]))])
            elif k <= 7:
                ops.append(["dep", draw(st.integers(0, 1)), draw(st.integers(0, 2))])
            else:
                ops.append(["answer", draw(st.integers(0, n - 1)), draw(st.integers(0, 3))])
        return {"n": n, "ops": ops}
    return f()


def run(case, rec):
    with World() as w:
        port = fakes.Port()
        c = w.get("controller.client", "Client")(port, {})
        deps = [ms.make(w, s, f"dep{i}") for i, s in enumerate(DEPS)]
        maps = [ms.make(w, s, f"m{i}", depends=deps[d]) for i, (s, d) in enumerate(PARAMS[:case["n"]])]
        lis = {j: ms.Listener() for j in (0, 1, 2)}
        dep_pending = [None, None]          # set of (param, party) which asked
        pending = {}                        # param -> parties waiting
        seen = {}                           # (param, party) -> dependency value last seen
        changed = parties = timeouts = 0
        asked = set()

        def receive(recs):
            port.take()
            for l in lis.values():
                l.calls.clear()
            for r in recs:
                c.receive(build(r))
            return port.take()

        for op in case["ops"]:
            if op[0] == "request":
                _, i, j = op
                d = PARAMS[i][1]
                port.take()
                for l in lis.values():
                    l.calls.clear()
                c.request(maps[i], lis.get(j))
                got = port.take()
                exp = [] if dep_pending[d] is not None else [ms.request_rec(DEPS[d])]
                expect(got == exp, f"request for m{i} sent {got}, expected {exp}")
                expect(not any(l.calls for l in lis.values()), "informed by a request alone")
                if dep_pending[d] is None:
                    dep_pending[d] = set()
                dep_pending[d].add((i, j))
                asked.add((i, j))
            elif op[0] == "dep":
                _, d, v = op
                val = "v%d" % v if DEPS[d]["kind"] == "str" else v
                got = receive(ms.answer_recs(DEPS[d], val))
                exp = set()
                for (i, j) in sorted(dep_pending[d] or ()):
                    if seen.get((i, j)) != val:
                        changed += (i, j) in seen
                        seen[(i, j)] = val
                        if i not in pending:
                            pending[i] = set()
                            exp.add(ms.request_rec(PARAMS[i][0]))
                        if j >= 0:
                            pending[i].add(j)
                dep_pending[d] = None
                expect(len(got) == len(set(got)) and set(got) == exp, f"dependency is now {val!r}: sent {got}, expected {sorted(exp)}")
                expect(not any(l.calls for l in lis.values()), "parties informed about the dependency itself")
            elif op[0] == "wait":
                # everything which is pending is given up
                for l in lis.values():
                    l.calls.clear()
                for _ in range(45):
                    w.clock.advance(100)
                    c.receive(None)
                timeouts += any(p is not None for p in dep_pending) and bool(seen)
                dep_pending = [None, None]
                for j, l in lis.items():
                    e = sorted(("terminated", f"m{i}") for i, ps in pending.items() if j in ps)
                    expect(sorted(x[:2] for x in l.calls) == e, f"party {j} informed {l.calls} when requests were given up, expected {e}")
                pending = {}
                expect(port.take() == [], "something sent while time passes")
            else:
                _, i, v = op
                spec = PARAMS[i][0]
                val = "n%d" % v if spec["kind"] == "str" else v
                before = maps[i].value
                got = receive(ms.answer_recs(spec, val))
                expect(got == [], f"answer made the client send {got}")
                waiting = pending.pop(i, None)
                exp = val if waiting is not None else before
                expect(maps[i].value == exp, f"m{i} has value {maps[i].value!r}, expected {exp!r}")
                for j, l in lis.items():
                    e = [("changed", f"m{i}", val)] if waiting and j in waiting else []
                    expect(l.calls == e, f"party {j} informed {l.calls}, expected {e} (parties waiting: {waiting})")
                parties += waiting is not None and len(waiting) > 1
        rec.nontrivial_if(changed and len({j for _, j in asked}) > 1)
        rec.label("given up", timeouts)
        rec.label("changes", changed)
        rec.label("shared answers", parties)


# ------------------------------------------------------------------ complete controller
TEXTS = ["rig_name", "amp_name", "cab_name"]


def app_cases():
    return st.fixed_dictionaries({
        "labels": st.lists(st.sampled_from(TEXTS), min_size=1, max_size=5),
        "encoder": st.booleans(),
        "delay": st.integers(0, 5),
        "tick": st.sampled_from([1, 5, 20]),
        "rigs": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 900)), min_size=1, max_size=5),
    })


ADDR = {"rig_name": 1, "amp_name": 0x10, "cab_name": 0x20}


def run_app(case, rec):
    with World() as w:
        K = w.get("clients.kemper", "KemperMappings")
        amp = w.imp("clients.kemper.mappings.amp").MAPPING_AMP_NAME()
        cab = w.imp("clients.kemper.mappings.cabinet").MAPPING_CABINET_NAME()
        maps = {"rig_name": K.RIG_NAME(), "amp_name": amp, "cab_name": cab}
        CB = w.get("controller.callbacks.parameter_display", "ParameterDisplayCallback")
        labels = []
        for i, t in enumerate(case["labels"]):
            labels.append(label(w, y=40 * i, callback=CB(maps[t])))
        inputs = []
        if case["encoder"]:
            E = w.get("controller.actions.EncoderAction", "EncoderAction")
            inputs.append({"kind": "encoder", "actions": [E(mapping=maps["rig_name"])]})
        app = App(w, inputs, splash=splash_callback(w, root(w, labels)), tick_ms=case["tick"])
        rig = {"n": 0}
        numbers = {}
        for k, m in maps.items():
            numbers[tuple(m.request.data)] = k
        date_req = tuple(K.RIG_DATE().request.data)
        date_num = date_req[5]
        answers = []
        counts = {}

        def on_send(r):
            if r[0] != "sx":
                return
            key = tuple(r[2])
            counts[key] = counts.get(key, 0) + 1
            at = w.clock.ms + case["delay"] * case["tick"]
            if key == date_req:
                answers.append((at, nrpn_string(0, date_num, "date%d" % rig["n"])))
            elif key in numbers:
                answers.append((at, nrpn_string(0, key[5], "%s %d" % (numbers[key], rig["n"]))))

        app.port.on_send = on_send

        def go(ms_):
            end = w.clock.ms + ms_
            while w.clock.ms < end:
                while answers and answers[0][0] <= w.clock.ms:
                    app.port.push(answers.pop(0)[1])
                app.tick()

        app.init()
        changes = 0
        for n, wait in case["rigs"]:
            changes += rig["n"] != n
            rig["n"] = n
            go(wait)
            go(700 + 5 * case["delay"] * case["tick"])
            before = dict(counts)
            for t, l in zip(case["labels"], labels):
                exp = "%s %d" % (t, n)
                expect(l.text == exp, f"label for {t} shows {l.text!r}, the device's is {exp!r} (labels {case['labels']})")
            go(500)
            for key, name in numbers.items():
                expect(counts.get(key, 0) == before.get(key, 0), f"{name} is requested again although the rig did not change")
        rec.nontrivial_if(changes and len(case["labels"]) + case["encoder"] > 1)


TESTS = [Test("history", cases, run, quick=1500, thorough=60000),
         Test("labels", app_cases, run_app, quick=150, thorough=4000)]
