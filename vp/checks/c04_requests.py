from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build
from .. import fakes, gens, mapspec as ms
from ..app import expect

ID = "C04"
RULE = ("Histories of requests by several parties, answers, unrelated messages, lost answers, idle processing and elapsed time over several parameters, for random request "
        "lifetimes, followed step by step by a reference model. Non-trivial: at least one request answered or given up, and one party joined a pending request or asked again afterwards.")
NOTE = "The moment of giving up is only bounded (between the lifetime and 1.5 times the lifetime plus one millisecond, at the next processed message); within the window both outcomes are accepted."

SPECS = [
    {"kind": "nrpn", "manu": 0, "func": 1, "page": 0x32, "num": 3},
    {"kind": "nrpn", "manu": 0, "func": 1, "page": 0x32, "num": 0},
    {"kind": "str", "manu": 0, "func": 3, "page": 0, "num": 1},
    {"kind": "cc", "c": 11},
    {"kind": "two", "c": 32},
]


def cases():
    @st.composite
    def f(draw):
        life = draw(st.one_of(st.sampled_from([2000, 1000, 100, 3, 2]), st.integers(2, 5000)))
        nmap = draw(st.integers(1, len(SPECS)))
        ops = []
        for _ in range(draw(st.integers(1, 30))):
            k = draw(st.integers(0, 11))
            m = draw(st.integers(0, nmap - 1))
            if k <= 3:
                ops.append(["request", m, draw(st.sampled_from([-1, 0, 0, 1, 1, 2]))])
            elif k <= 6:
                ops.append(["answer", m, draw(st.integers(0, 127)), draw(st.booleans())])
            elif k == 7:
                ops.append(["noise", [list(x) if isinstance(x, tuple) else x for x in draw(gens.any_message)]])
            elif k == 8:
                ops.append(["idle"])
            else:
                ops.append(["wait", draw(st.one_of(st.integers(0, 30), st.sampled_from([life // 2, life // 2 + 1, life - 1, life, life + 1, life + life // 2, life + life // 2 + 2, 2 * life]), st.integers(0, 2 * life)))])
        return {"life": life, "n": nmap, "ops": ops}
    return f()


def run(case, rec):
    with World() as w:
        port = fakes.Port()
        life = case["life"]
        c = w.get("controller.client", "Client")(port, {"maxRequestLifetimeMillis": life})
        maps = [ms.make(w, SPECS[i], f"m{i}") for i in range(case["n"])]
        lis = [ms.Listener() for _ in range(3)]
        refs = [ms.Ref(SPECS[i]) for i in range(case["n"])]
        # model: pending[i] = {t, listeners, sure}; sure False: it may have been given up unnoticed
        pending = {}
        stats = {"joined": 0, "again": 0, "done": 0, "gone": 0}
        was_done = set()

        def process(r):
            now = w.clock.ms
            for l in lis:
                l.calls.clear()
            port.take()
            c.receive(build(r) if r is not None else None)
            expect(port.take() == [], "processing a message sent something")
            exp_changed = []
            calls = {j: list(l.calls) for j, l in enumerate(lis)}
            for i in list(pending):
                p = pending[i]
                age = now - p["t"]
                mine = {j: [x for x in calls[j] if x[1] == maps[i].name] for j in p["listeners"]}
                term = [j for j in p["listeners"] if ("terminated", maps[i].name) in mine[j]]
                for j in p["listeners"]:
                    expect(len(mine[j]) <= 1, f"requester {j} of m{i} called {mine[j]}")
                if term:
                    expect(age > life, f"request given up after {age} ms although the lifetime is {life} ms")
                    expect(len(term) == len(p["listeners"]), f"only requesters {term} of {p['listeners']} have been told")
                    del pending[i]
                    refs[i].high = refs[i].high if SPECS[i]["kind"] == "two" else None
                    was_done.add(i)
                    stats["gone"] += 1
                    for j in p["listeners"]:
                        calls[j] = [x for x in calls[j] if x[1] != maps[i].name]
                    continue
                must_go = age > life * 1.5 + 2
                if must_go:
                    expect(not p["listeners"], f"request is still pending {age} ms after it was made (lifetime {life} ms)")
                    del pending[i]
                    was_done.add(i)
                    continue
                if age > life and not p["listeners"]:
                    p["sure"] = False
                if r is None:
                    continue
                before = refs[i].value
                if refs[i].addressed_but_malformed(tuple(r)):
                    continue
                if not p["sure"]:
                    continue
                res = refs[i].feed(tuple(r) if r[0] != "sx" else ("sx", tuple(r[1]), tuple(r[2])))
                if res is True:
                    expect(maps[i].value == refs[i].value, f"m{i} has value {maps[i].value!r}, expected {refs[i].value!r}")
                    for j in p["listeners"]:
                        expect(mine[j] == [("changed", maps[i].name, refs[i].value)], f"requester {j} of m{i} got {mine[j]} for the answer {r}")
                        calls[j] = [x for x in calls[j] if x[1] != maps[i].name]
                    del pending[i]
                    was_done.add(i)
                    stats["done"] += 1
            for j, rest in calls.items():
                expect(not rest, f"requester {j} has been informed without a matching pending request: {rest} (message {r})")

        for op in case["ops"]:
            if op[0] == "wait":
                w.clock.advance(op[1])
            elif op[0] == "idle":
                process(None)
            elif op[0] == "noise":
                # messages which concern nobody
                d = op[1]
                if not any(ms.Ref(s).feed(tuple(d) if d[0] != "sx" else ("sx", tuple(d[1]), tuple(d[2]))) is not False or
                           ms.Ref(s).addressed_but_malformed(d if d[0] != "sx" else ("sx", d[1], d[2])) for s in SPECS) and d[0] not in ("pc", "cc"):
                    process(d)
            elif op[0] == "answer":
                i = op[1]
                v = "n%d" % op[2] if SPECS[i]["kind"] == "str" else op[2]
                parts = ms.answer_recs(SPECS[i], v)
                for r in parts:
                    process(r)
            else:
                _, i, j = op
                port.take()
                for l in lis:
                    l.calls.clear()
                c.request(maps[i], lis[j] if j >= 0 else None)
                got = port.take()
                expect(not any(l.calls for l in lis), "a request alone must not inform anybody")
                req = ms.request_rec(SPECS[i])
                p = pending.get(i)
                if p is None:
                    expect(got == [req], f"request for m{i} sent {got}, expected {[req]}")
                    pending[i] = {"t": w.clock.ms, "listeners": [] if j < 0 else [j], "sure": True}
                    stats["again"] += i in was_done
                else:
                    if not p["sure"] and got:
                        expect(got == [req], f"request for m{i} sent {got}")
                        pending[i] = {"t": w.clock.ms, "listeners": [] if j < 0 else [j], "sure": True}
                    else:
                        expect(got == [], f"request for m{i} sent {got} while one is pending")
                        p["sure"] = True
                        if j >= 0 and j not in p["listeners"]:
                            p["listeners"].append(j)
                        stats["joined"] += 1
        rec.nontrivial_if((stats["done"] or stats["gone"]) and (stats["joined"] or stats["again"]))
        for k, v in stats.items():
            rec.label(k, v)


TESTS = [Test("lifecycle", cases, run, quick=2400, thorough=80000)]
