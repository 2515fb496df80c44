from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build, dump, KEMPER
from .. import fakes, gens, mapspec as ms
from ..app import expect

ID = "C03"
RULE = ("Sets of parameters of all kinds (random, overlapping and the Kemper client's own ones), some observed permanently and some requested, against sequences of "
        "messages derived from their answers (exact, one address or manufacturer byte changed, truncated, extended, other function) mixed with arbitrary MIDI messages. "
        "Non-trivial: at least one message concerned an observed parameter and at least one did not.")
NOTE = "Reference decoder per parameter in vp/mapspec.py. The value read from an addressed message of the wrong length is left open; it may only affect parameters of that address."

OWN = ["RIG_NAME", "RIG_DATE", "TUNER_MODE_STATE", "TUNER_NOTE", "TUNER_DEVIANCE", "RIG_ID"]


def own_specs():
    """The parameters of the Kemper client with their documented answers"""
    out = []
    pages = [0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d, 0x3c, 0x3d]
    for s, p in enumerate(pages):
        out.append(("EFFECT_STATE", s, {"kind": "nrpn", "manu": 0, "func": 1, "page": p, "num": 3}))
        out.append(("EFFECT_TYPE", s, {"kind": "nrpn", "manu": 0, "func": 1, "page": p, "num": 0}))
    out += [("RIG_NAME", None, {"kind": "str", "manu": 0, "func": 3, "page": 0, "num": 1}),
            ("RIG_DATE", None, {"kind": "str", "manu": 0, "func": 3, "page": 0, "num": 3}),
            ("TUNER_MODE_STATE", None, {"kind": "nrpn", "manu": 0, "func": 1, "page": 0x7f, "num": 0x7e}),
            ("TUNER_NOTE", None, {"kind": "nrpn", "manu": 0, "func": 1, "page": 0x7d, "num": 0x54}),
            ("TUNER_DEVIANCE", None, {"kind": "nrpn", "manu": 0, "func": 1, "page": 0x7c, "num": 0x0f}),
            ("RIG_ID", None, {"kind": "two", "c": 32})]
    return out


OWNS = own_specs()


def cases():
    @st.composite
    def f(draw):
        params = []
        for _ in range(draw(st.integers(1, 6))):
            if draw(st.booleans()):
                params.append({"own": draw(st.integers(0, len(OWNS) - 1)), "requested": draw(st.booleans())})
            else:
                params.append({"spec": draw(ms.any_spec), "requested": draw(st.booleans())})
        msgs = []
        for _ in range(draw(st.integers(1, 12))):
            k = draw(st.integers(0, 9))
            p = draw(st.sampled_from(params))
            spec = OWNS[p["own"]][2] if "own" in p else p["spec"]
            if k <= 5:
                v = draw(st.text(alphabet="ab C1", max_size=6)) if spec["kind"] == "str" else draw(st.integers(0, 16383 if spec["kind"] in ("nrpn", "two") else 127))
                for r in ms.answer_recs(spec, v, draw(st.sampled_from([0, 2])), draw(gens.b7)):
                    r = [list(x) if isinstance(x, tuple) else x for x in r]
                    if k >= 3 and r[0] == "sx":
                        mut = draw(st.integers(0, 4))
                        if mut == 0:
                            i = draw(st.integers(2, 5))
                            r[2][i] = (r[2][i] + draw(st.sampled_from([1, 127, 64]))) % 128
                        elif mut == 1:
                            i = draw(st.integers(0, len(r[1]) - 1))
                            r[1][i] = (r[1][i] + 1) % 128
                            if len(r[1]) == 1 and r[1][0] == 0:
                                r[1][0] = 1
                            if len(r[1]) == 3:
                                r[1][0] = 0
                        elif mut == 2:
                            r[2] = r[2][:draw(st.integers(0, len(r[2])))]
                        elif mut == 3:
                            r[2] = r[2] + draw(st.lists(gens.b7, min_size=1, max_size=3))
                        else:
                            i, j = draw(st.integers(2, 5)), draw(st.integers(2, 5))
                            r[2][i], r[2][j] = r[2][j], r[2][i]
                    elif k >= 3 and r[0] == "cc":
                        r[1] = (r[1] + draw(st.integers(0, 2))) % 128
                    msgs.append(r)
            else:
                msgs.append([list(x) if isinstance(x, tuple) else x for x in draw(gens.any_message)])
        return {"params": params, "msgs": msgs}
    return f()


def run(case, rec):
    with World() as w:
        port = fakes.Port()
        c = w.get("controller.client", "Client")(port, {})
        K = w.get("clients.kemper", "KemperMappings")
        entries = []
        for i, p in enumerate(case["params"]):
            if "own" in p:
                fn, slot, spec = OWNS[p["own"]]
                m = getattr(K, fn)() if slot is None else getattr(K, fn)(slot)
                if any(e["m"] is m for e in entries):
                    continue
                # dependencies are a matter of C05
                m.depends = None
            else:
                spec = p["spec"]
                m = ms.make(w, spec, f"p{i}", request=p["requested"])
            lis = ms.Listener()
            if m.request:
                c.request(m, lis)
            else:
                c.register(m, lis)
            entries.append({"m": m, "ref": ms.Ref(spec), "lis": lis, "open": True, "once": bool(m.request), "spec": spec})
        hit = miss = 0
        for r in case["msgs"]:
            msg = build(r)
            d = dump(msg)
            before = [e["m"].value for e in entries]
            for e in entries:
                e["lis"].calls.clear()
            c.receive(msg)
            for e, b in zip(entries, before):
                name = f"{e['m'].name} {e['spec']}"
                if not e["open"]:
                    expect(e["m"].value == b and not e["lis"].calls, f"{name} changed by {d} although nothing was requested")
                    continue
                if e["ref"].addressed_but_malformed(d):
                    # undefined value; whatever it did is taken over
                    rec.label("malformed")
                    if e["lis"].calls and e["once"]:
                        e["open"] = False
                    continue
                res = e["ref"].feed(d)
                if res is True:
                    hit += 1
                    expect(e["m"].value == e["ref"].value, f"{name}: value {e['m'].value!r} after {d}, expected {e['ref'].value!r}")
                    expect(len(e["lis"].calls) == 1 and e["lis"].calls[0][0] == "changed" and e["lis"].calls[0][2] == e["ref"].value, f"{name}: listener calls {e['lis'].calls} after {d}")
                    if e["once"]:
                        e["open"] = False
                else:
                    miss += 1
                    expect(e["m"].value == b, f"{name}: value changed from {b!r} to {e['m'].value!r} by {d}")
                    expect(not e["lis"].calls, f"{name}: listener called {e['lis'].calls} by {d}")
        expect(not [x for x in port.sent if x[0] != "sx"], "something other than requests sent")
        rec.nontrivial_if(hit and miss)
        rec.label("hits", hit)


TESTS = [Test("addressing", cases, run, quick=2400, thorough=80000)]
