from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build, dump, wire_ok
from .. import fakes, gens, mapspec as ms
from ..app import expect

ID = "C02"
RULE = ("Parameters with random addresses of all message types (NRPN, CC, PC, two part, string, sets of several messages), random values from the "
        "full range, sequences of sets, device answers and unrelated messages between the parts of an answer; plus the complete enumeration of all 16384 NRPN "
        "values and 128 CC/PC values. Non-trivial: at least two values are transferred, or a value above 127 is.")
NOTE = ("All values of one NRPN, CC and PC parameter are enumerated completely, everything else is random. Expected wire bytes come from the MIDI "
        "specification of the messages, not from the code.")


def client(w):
    port = fakes.Port()
    c = w.get("controller.client", "Client")(port, {})
    return c, port


def set_cases():
    simple = st.one_of(ms.nrpn_spec, ms.nrpn_spec, ms.cc_spec, ms.pc_spec)

    @st.composite
    def build_case(draw):
        specs = draw(st.lists(simple, min_size=1, max_size=4))
        multi = draw(st.booleans()) and len(specs) > 1
        def val(s):
            return draw(st.one_of(st.integers(0, ms.max_value(s)), st.sampled_from([0, 1, 127, 128, 129, 8191, 8192, 16256, 16383]).map(lambda v: min(v, ms.max_value(s)))))
        n = draw(st.integers(1, 6))
        ops = []
        for _ in range(n):
            if multi:
                ops.append([val(s) for s in specs])
            else:
                i = draw(st.integers(0, len(specs) - 1))
                ops.append([i, val(specs[i])])
        return {"specs": specs, "multi": multi, "ops": ops}
    return build_case()


def run_set(case, rec):
    with World() as w:
        c, port = client(w)
        specs = case["specs"]
        if case["multi"]:
            M = w.get("controller.client", "ClientParameterMapping")
            m = M.get(name="multi", set=[ms.set_obj(s) for s in specs])
            for vals in case["ops"]:
                port.take()
                c.set(m, vals)
                got = port.take()
                exp = [ms.set_rec(s, v) for s, v in zip(specs, vals)]
                expect(got == exp, f"setting {vals} sent {got}, expected {exp}")
            rec.label("multi")
        else:
            maps = [ms.make(w, s, f"m{i}") for i, s in enumerate(specs)]
            for i, v in case["ops"]:
                port.take()
                c.set(maps[i], v)
                got = port.take()
                exp = [ms.set_rec(specs[i], v)]
                expect(got == exp, f"setting {v} sent {got}, expected {exp}")
                expect(all(wire_ok(r) for r in got), f"not a valid MIDI message: {got}")
        rec.nontrivial_if(len(case["ops"]) > 1 or any(isinstance(v, int) and v > 127 for o in case["ops"] for v in o))


def rt_cases():
    @st.composite
    def f(draw):
        spec = draw(st.one_of(ms.nrpn_spec, ms.cc_spec, ms.pc_spec, ms.two_spec, ms.str_spec))
        vals = []
        for _ in range(draw(st.integers(1, 5))):
            if spec["kind"] == "str":
                vals.append(draw(st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=127), max_size=30)))
            elif spec["kind"] == "two":
                vals.append(draw(st.integers(0, 16383)))
            else:
                vals.append(draw(st.integers(0, ms.max_value(spec))))
        noise = draw(st.lists(st.one_of(gens.any_message, st.just(["pc", 5]), st.just(["cc", 32, 1])), max_size=6))
        return {"spec": spec, "vals": vals, "noise": noise, "product": draw(st.sampled_from([0, 2])),
                "device": draw(gens.b7), "request": draw(st.booleans())}
    return f()


def run_rt(case, rec):
    """A device reports values, with unrelated messages in between; finally the value is set back"""
    with World() as w:
        c, port = client(w)
        spec = case["spec"]
        m = ms.make(w, spec, "p", request=case["request"])
        ref = ms.Ref(spec)
        lis = ms.Listener()
        if not case["request"]:
            c.register(m, lis)
        noise = list(case["noise"])

        def deliver(r):
            before = m.value
            n = len(lis.calls)
            res = ref.feed(dump(build(r)))
            c.receive(build(r))
            if res is True:
                expect(m.value == ref.value, f"after {r}: value {m.value!r}, expected {ref.value!r}")
            else:
                expect(m.value == before, f"message {r} changed the value from {before!r} to {m.value!r}")
            return res

        for v in case["vals"]:
            if case["request"]:
                c.request(m, lis)
            parts = ms.answer_recs(spec, v, case["product"], case["device"])
            done = False
            for p in parts:
                done = deliver(p) is True
                if len(parts) > 1 and p is parts[0] and noise:
                    r = noise.pop(0)
                    if not case["request"] or ref.spec["kind"] == "two":
                        probe = ms.Ref(spec)
                        probe.high = ref.high
                        if not ref.addressed_but_malformed(dump(build(r))):
                            deliver(r)
                            if case["request"] and ref.high is None:
                                done = True
                                break
            # In any case the value is the one the reference has seen last
            expect(m.value == ref.value, f"value {m.value!r}, expected {ref.value!r}")
            if noise and not case["request"]:
                r = noise.pop(0)
                if not ref.addressed_but_malformed(dump(build(r))):
                    deliver(r)
        # and back to the wire
        if m.set is not None and spec["kind"] in ("nrpn", "cc", "pc"):
            port.take()
            c.set(m, m.value)
            expect(port.take() == [ms.set_rec(spec, ref.value)], "setting the received value back does not send the same value")
        rec.nontrivial_if(len(case["vals"]) > 1 or case["noise"])
        rec.label(spec["kind"])


def run_all(case, rec):
    """Complete enumeration of the values of one parameter, both directions"""
    with World() as w:
        c, port = client(w)
        spec = case["spec"]
        m = ms.make(w, spec, "p", request=False)
        c.register(m, ms.Listener())
        for v in range(ms.max_value(spec) + 1):
            c.set(m, v)
            got = port.take()
            expect(got == [ms.set_rec(spec, v)], f"setting {v} sent {got}")
            c.receive(build(ms.answer_recs(spec, (v * 7919) % (ms.max_value(spec) + 1))[0]))
            expect(m.value == (v * 7919) % (ms.max_value(spec) + 1), f"value {m.value} received instead of {v}")
        rec.nontrivial_if()
        rec.label("values", ms.max_value(spec) + 1)


ALL = [{"spec": {"kind": "nrpn", "manu": 0, "func": 1, "page": 0x0a, "num": 4}},
       {"spec": {"kind": "cc", "c": 73}}, {"spec": {"kind": "pc"}}]


def two_part_cases():
    part = st.one_of(st.tuples(st.just("cc"), st.just(32), st.integers(0, 4)), st.tuples(st.just("pc"), gens.b7),
                     st.tuples(st.just("cc"), st.sampled_from([31, 33, 50]), gens.b7), gens.sx(8))
    return st.lists(part, min_size=1, max_size=14).map(lambda l: {"msgs": l})


def run_two(case, rec):
    """The rig ID of the Kemper client: high part and low part in order, arbitrary other messages"""
    with World() as w:
        c, port = client(w)
        k = w.imp("clients.kemper")
        maps = [k.KemperMappings.RIG_ID(), w.imp("clients.kemper.mappings.select").MAPPING_BANK_SELECT()]
        refs = [ms.Ref({"kind": "two", "c": 32}) for _ in maps]
        lis = [ms.Listener() for _ in maps]
        for m, l in zip(maps, lis):
            c.register(m, l)
        values = 0
        for r in case["msgs"]:
            r = tuple(r)
            for l in lis:
                l.calls.clear()
            c.receive(build(r))
            for m, l, ref in zip(maps, lis, refs):
                res = ref.feed(dump(build(r)))
                expect(m.value == ref.value, f"after {case['msgs']}: rig ID {m.value}, expected {ref.value}")
                expect(len(l.calls) == (1 if res is True else 0), f"listener called {len(l.calls)} times after {r}")
                values += res is True
        rec.nontrivial_if(values >= 1 and len(case["msgs"]) > 2)


TESTS = [
    Test("set", set_cases, run_set, quick=1200, thorough=40000),
    Test("roundtrip", rt_cases, run_rt, quick=1800, thorough=60000),
    Test("all-values", None, run_all, examples=ALL),
    Test("two-part", two_part_cases, run_two, quick=600, thorough=20000),
]
