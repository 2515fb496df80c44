from hypothesis import strategies as st
from ..kit import Test
from ..app import App, expect, label, root, splash_callback
from ..world import World
from ..kemperdev import Device
from ..binary import COMPARE
from .. import gens, zoo

ID = "C37"
RULE = ("Random sets of observers (on/off switches with various comparisons, effect state switches, number labels) and controls (up/down switches, wheels, pedals) of one to four parameters, polled or bidirectional, created in random order and spread over pages; random histories of presses, turns, pedal movements, page changes and device side changes. "
        "After each operation has settled, all observers must show the value the device has. All predefined parameters are requested twice in random order. Non-trivial: a parameter with at least three observers or controls changed at least three times.")

SLOT = zoo.SLOTS
POOL = (["KemperMappings.EFFECT_STATE(%s)" % s for s in SLOT] + ["MAPPING_FREEZE(%s)" % s for s in SLOT[:3]] + ["MAPPING_DLY_REV_MIX(%s)" % s for s in SLOT[-2:]] +
        ["MAPPING_%s()" % n for n in ("AMP_STATE", "AMP_GAIN", "CABINET_STATE", "RIG_VOLUME", "RIG_TRANSPOSE", "MAIN_VOLUME", "MONITOR_VOLUME", "SPACE_INTENSITY", "FIXED_TRANSPOSE", "FIXED_GATE", "FIXED_COMP", "FIXED_BOOST", "FIXED_WAH", "FIXED_CHORUS", "FIXED_AIR", "FIXED_DBL_TRACKER", "TEMPO_BPM")] +
        ["KemperMappings.TUNER_MODE_STATE()"])


def binary_only(m):
    return "EFFECT_STATE" in m or "TUNER_MODE" in m


def cases():
    @st.composite
    def f(draw):
        params = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=draw(st.sampled_from([1, 2, 4])), unique=True))
        pages = draw(st.integers(0, 2))
        parts = []
        for _ in range(draw(st.integers(2, 9))):
            p = draw(st.integers(0, len(params) - 1))
            onoff = binary_only(params[p])
            kind = draw(st.sampled_from(["bin", "bin", "bin", "num", "num", "updown", "wheel", "pot"] + (["effect"] if "EFFECT_STATE" in params[p] else [])))
            part = {"kind": kind, "param": p, "page": draw(st.integers(0, pages)) if pages and kind in ("bin", "updown", "effect") else 0}
            if kind == "bin":
                if onoff:
                    part.update(on=1, off=0, ref=draw(st.sampled_from([None, 1])), cmp=draw(st.sampled_from(["EQUAL", "GREATER_EQUAL"])))
                else:
                    v = st.one_of(st.integers(0, 4), gens.v14)
                    on, off, ref = draw(v), draw(v), draw(v)
                    cmp = draw(st.sampled_from(sorted(COMPARE)))
                    if cmp == "EQUAL" or not COMPARE[cmp](on, ref):
                        ref = on
                    if not COMPARE[cmp](on, ref):
                        cmp = "EQUAL"
                    if COMPARE[cmp](off, ref):
                        off = (on + 1) % 16384
                        cmp = "EQUAL"
                        ref = on
                    part.update(on=on, off=off, ref=ref, cmp=cmp)
                part["mode"] = draw(st.sampled_from(["LATCH", "LATCH", "MOMENTARY", "ENABLE", "DISABLE"]))
            elif kind == "updown":
                part["offset"] = draw(st.sampled_from([1, -1, 100, -700, 20000]))
            parts.append(part)
        n = len(parts)
        op = st.one_of(
            st.tuples(st.just("use"), st.integers(0, n - 1), st.integers(-20, 20)), st.tuples(st.just("use"), st.integers(0, n - 1), st.integers(-20, 20)),
            st.tuples(st.just("device"), st.integers(0, len(params) - 1), st.one_of(st.integers(0, 4), gens.v14)),
            st.tuples(st.just("near"), st.integers(0, n - 1), st.integers(-1, 1)),
            gens.rarely(st.tuples(st.just("page"), st.just(0), st.just(0)), ("use", 0, 1), 2))
        return {"params": params, "parts": parts, "pages": pages, "protocol": True if any("TUNER" in p for p in params) else draw(st.booleans()), "ops": draw(st.lists(op, min_size=3, max_size=14)), "initial": draw(st.lists(gens.v14, min_size=4, max_size=4))}
    return f()


def run(case, rec):
    with World() as w:
        ns = zoo.namespace(w)
        B, P = w.get("controller.callbacks", "BinaryParameterCallback"), w.get("controller.callbacks.parameter_display", "ParameterDisplayCallback")
        PB = w.get("controller.actions", "PushButtonAction")
        addr = []
        dev = Device(bidirectional=case["protocol"])
        for a in dev.params:
            if a[1] == 0:
                dev.params[a] = 33     # an effect is loaded in each slot
        for i, m in enumerate(case["params"]):
            r = eval(m, ns).response
            addr.append((r.data[4], r.data[5]))
            dev.params[addr[-1]] = case["initial"][i] % (2 if binary_only(m) else 16384)
        inputs, labels, shows = [], [], []
        pager = None
        pages = case["pages"] + 1
        if case["pages"]:
            pager = ns["PagerAction"](pages=[{"id": k + 1, "color": (1, 2, 3), "text": "P"} for k in range(pages)])
            inputs.append({"actions": [pager], "pixels": [0, 1, 2]})
        pix = 3
        for k, part in enumerate(case["parts"]):
            m = eval(case["params"][part["param"]], ns)
            kw = {"id": part["page"] + 1, "enable_callback": pager.enable_callback} if pager and part["kind"] in ("bin", "updown", "effect") else {}
            lab = None
            if part["kind"] == "num":
                lab = label(w, y=0, callback=P(mapping=m), text="none")
                labels.append(lab)
                shows.append((None, None, lab))
                continue
            if part["kind"] == "bin":
                lab = label(w, y=0)
                labels.append(lab)
                a = ns["BINARY_SWITCH"](mapping=m, display=lab, text="on", color=(255, 255, 255), value_on=part["on"], value_off=part["off"], reference_value=part["ref"], comparison_mode=getattr(B, part["cmp"]), mode=getattr(PB, part["mode"]),
                                        led_brightness_on=0.5, led_brightness_off=0.125, display_dim_factor_on=0.5, display_dim_factor_off=0.25, **kw)
                inputs.append({"actions": [a], "pixels": range(pix, pix + 1)})
            elif part["kind"] == "effect":
                slot = case["params"][part["param"]].split("(")[1][:-1]
                a = ns["EFFECT_STATE"](slot_id=eval(slot, ns), **kw)
                inputs.append({"actions": [a], "pixels": range(pix, pix + 1)})
            elif part["kind"] == "updown":
                a = ns["PARAMETER_UP_DOWN"](mapping=m, offset=part["offset"], **kw)
                inputs.append({"actions": [a], "pixels": range(pix, pix + 1)})
            elif part["kind"] == "wheel":
                a = ns["EncoderAction"](mapping=m)
                inputs.append({"kind": "encoder", "actions": [a]})
            else:
                a = ns["AnalogAction"](mapping=m, min_raw_value=0)
                inputs.append({"kind": "pot", "actions": [a], "value": 0})
            pix += 1
            shows.append((len(inputs) - 1, a, lab))
        kw = {"protocol": w.get("clients.kemper", "KemperBidirectionalProtocol")(30)} if case["protocol"] else {}
        app = App(w, inputs, splash=splash_callback(w, root(w, labels)), **kw)
        dev.attach(app)
        app.init()

        def go(ms):
            end = w.clock.ms + ms
            while w.clock.ms < end:
                dev.tick()
                app.tick()

        page = 0
        leds_of = {}
        p = 3
        for k, (i, a, lab) in enumerate(shows):
            if a is not None:
                leds_of[k] = p
                p += 1
        changes = {}

        def check(op):
            for k, part in enumerate(case["parts"]):
                v = dev.params[addr[part["param"]]]
                i, a, lab = shows[k]
                name = case["params"][part["param"]]
                if part["kind"] == "num":
                    expect(lab.text == str(v), lambda: f"label of {name} shows {lab.text!r} after {op}, the device has {v}")
                    continue
                if part["kind"] not in ("bin", "effect") or (pager and part["page"] != page):
                    continue
                if part["kind"] == "effect":
                    expect(a.state == (v > 0), lambda: f"effect state {k} of {name} is {a.state} after {op}, the device has {v}")
                    continue
                on = COMPARE[part["cmp"]](v, part["ref"] if part["ref"] is not None else part["on"])
                expect(a.state == on, lambda: f"switch {k} of {name} is {a.state} after {op}, the device has {v}")
                led = app.leds()[leds_of[k]]
                expect(tuple(led) == ((127,) * 3 if on else (31,) * 3), lambda: f"LED of switch {k} of {name} is {led} after {op}, the device has {v} ({on})")
                expect(tuple(lab.back_color) == ((127,) * 3 if on else (63,) * 3), lambda: f"label of switch {k} of {name} has colour {lab.back_color} after {op}, the device has {v} ({on})")

        go(1500)
        check("start")
        for op in case["ops"]:
            before = dict(dev.params)
            if op[0] == "page" and pager:
                app.tap(0)
                page = (page + 1) % pages
            elif op[0] == "device":
                a = addr[op[1]]
                dev.set(*a, op[2] % 2 if binary_only(case["params"][op[1]]) else op[2])
            elif op[0] == "near":
                part = case["parts"][op[1]]
                if part["kind"] == "bin" and not binary_only(case["params"][part["param"]]):
                    dev.set(*addr[part["param"]], max(0, min(16383, (part["ref"] or 0) + op[2])))
            elif op[0] == "use":
                part = case["parts"][op[1]]
                i, a, lab = shows[op[1]]
                if i is not None and not (pager and part["kind"] in ("bin", "updown", "effect") and part["page"] != page):
                    if part["kind"] == "wheel":
                        app.models[i].position += op[2]
                    elif part["kind"] == "pot":
                        app.models[i].value = (op[2] + 20) * 1638
                    else:
                        old = a.state if part["kind"] == "bin" else None
                        app.press(i)
                        go(300)
                        app.release(i)
                        if part["kind"] == "bin":
                            go(50)
                            want = {"LATCH": part["off"] if old else part["on"], "MOMENTARY": part["off"], "ENABLE": part["on"] if not old else None, "DISABLE": part["off"] if old else None}[part["mode"]]
                            v = dev.params[addr[part["param"]]]
                            expect(want is None or v == want, lambda: f"switch {op[1]} set the device to {v}, expected {want}")
            go(700)
            for k, v in dev.params.items():
                if before.get(k) != v:
                    changes[k] = changes.get(k, 0) + 1
            check(op)
        rec.nontrivial_if(any(changes.get(addr[i], 0) >= 3 and sum(part["param"] == i for part in case["parts"]) >= 3 for i in range(len(addr))))


# ---------------------------------------------------------------- one object per parameter

def same_cases():
    return st.fixed_dictionaries({"names": st.lists(zoo.mapping(tuple(sorted(zoo.MAPPINGS))), min_size=2, max_size=12), "between": st.integers(0, 3)})


def run_same(case, rec):
    with World() as w:
        ns = zoo.namespace(w)
        objs = {}
        twice = 0
        for k in list(range(len(case["names"]))) + list(reversed(range(len(case["names"])))):
            n = case["names"][k]
            m = eval(n, ns)
            if n in objs:
                expect(objs[n] is m, lambda: f"{n} yields another object the second time")
                twice += 1
            objs[n] = m
        names = list(objs)
        for a in names:
            for b in names:
                if a != b and objs[a] is objs[b]:
                    # only possible for the same parameter written differently
                    same = eval(a.split("(", 1)[1].rstrip(")") or "None", dict(ns)) == eval(b.split("(", 1)[1].rstrip(")") or "None", dict(ns)) if "=" not in a + b else True
                    expect(a.split("(")[0] == b.split("(")[0] and same, lambda: f"{a} and {b} are the same object")
        rec.nontrivial_if(len(names) >= 3)


TESTS = [Test("agree", cases, run, quick=900, thorough=40000), Test("same", same_cases, run_same, quick=300, thorough=5000)]
