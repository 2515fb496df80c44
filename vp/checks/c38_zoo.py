from hypothesis import strategies as st
from ..kit import Test
from ..app import App, expect, label, root, splash_callback
from ..world import World, wire_ok
from ..kemperdev import Device, TUNER
from .. import gens, zoo

ID = "C38"
SCALE = 3
RULE = ("Random configurations composed of all actions offered by the editor (names, parameters, kinds and ranges read from its definition files), on switches (press and hold), pedals and wheels, with pagers, proxies, encoder buttons, shared labels, rig name and tuner displays and the Kemper protocol; "
        "random histories of overlapping presses, wheel turns, pedal movements, device changes, arbitrary messages (also in the formats of the device with odd values) and time. Checked: no exception, valid MIDI messages, valid LED and label colours, displayable texts. Non-trivial: at least five inputs operated and one message sent.")

ADDR = [(p, n) for p in (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d) for n in (0, 3)] + [TUNER, (0x7d, 0x54), (0x7c, 0x0f), (4, 1), (4, 0), (0, 11), (0x7c, 0), (0x7d, 2), (4, 2)]


def ops(n_switch):
    one = st.one_of(
        st.tuples(st.just("tap"), st.integers(0, n_switch - 1), st.sampled_from([10, 10, 300, 900])),
        st.tuples(st.just("tap"), st.integers(0, n_switch - 1), st.sampled_from([10, 10, 300, 900])),
        st.tuples(st.just("down"), st.integers(0, n_switch - 1), st.booleans()),
        st.tuples(st.just("turn"), st.integers(0, 1), st.integers(-30, 30)),
        st.tuples(st.just("pedal"), st.integers(0, 1), st.integers(0, 65535)),
        st.tuples(st.just("rig"), st.integers(0, 624)),
        st.tuples(st.just("param"), st.one_of(st.sampled_from(ADDR), st.sampled_from(ADDR), st.tuples(gens.b7, gens.b7)), st.one_of(st.integers(0, 1), gens.v14)),
        st.tuples(st.just("midi"), gens.any_message),
        st.tuples(st.just("mute"), st.booleans()),
        st.tuples(st.just("wait"), st.sampled_from([10, 210, 450, 3000])),
    )
    return st.lists(one, min_size=3, max_size=20)


def cases():
    @st.composite
    def f(draw):
        comp = draw(zoo.composition())
        return {"comp": comp, "ops": draw(ops(len(comp["switches"]))), "splash": draw(st.sampled_from(["plain", "tuner", "strobe", "overridden"])), "rigname": draw(st.sampled_from(["none", "False", "True", "'rig'", "'bank'"])),
                "device": draw(gens.rarely(st.booleans(), True)), "protocol": draw(gens.rarely(st.just(False), True))}
    return f()


def run(case, rec):
    comp = case["comp"]
    with World() as w:
        labels = [label(w, y=24 * i, h=24) for i in range(comp["labels"])]
        children = list(labels)
        if case["rigname"] != "none":
            cb = w.get("clients.kemper", "KemperRigNameCallback")(show_rig_id=eval(case["rigname"]))
            children.append(label(w, y=120, h=60, callback=cb, text="x", maxTextWidth=220))
        plain = label(w, y=200, h=30, back=None, text="plain")
        children.append(plain)
        inputs = zoo.build(w, comp, labels, plain)
        r = root(w, children)
        if case["splash"] == "plain":
            splash = splash_callback(w, r)
        else:
            splash = w.get("clients.kemper", "TunerDisplayCallback")(splash_default=r, strobe=case["splash"] == "strobe", process_overridden_actions=case["splash"] == "overridden")
        kw = {"protocol": w.get("clients.kemper", "KemperBidirectionalProtocol")(30)} if case["protocol"] else {}
        app = App(w, inputs, splash=splash, **kw)
        dev = Device(rig=3, bidirectional=case["protocol"])
        dev.params.update({(4, 0): 120 * 64, (4, 1): 8192, (0, 11): 0, (0x7c, 0): 0})
        if case["device"]:
            dev.attach(app)
        app.init()
        switches = [i for i, d in enumerate(inputs) if d.get("kind", "switch") == "switch"]
        pots = [i for i, d in enumerate(inputs) if d.get("kind") == "pot"]
        encs = [i for i, d in enumerate(inputs) if d.get("kind") == "encoder"]

        def go(ms):
            end = w.clock.ms + ms
            while w.clock.ms < end:
                if case["device"]:
                    dev.tick()
                app.tick()

        go(300)
        if case["device"]:
            dev.report_rig()
        go(300)
        used = set()
        for op in case["ops"]:
            if op[0] in ("tap", "down"):
                i = switches[op[1] % len(switches)]
                used.add((len(used), i))
                if op[0] == "tap":
                    app.press(i)
                    go(op[2])
                    app.release(i)
                else:
                    app.models[i].pushed = op[2]
                go(20)
            elif op[0] == "turn" and encs:
                app.models[encs[op[1] % len(encs)]].position += op[2]
                used.add((len(used), "e"))
                go(30)
            elif op[0] == "pedal" and pots:
                app.models[pots[op[1] % len(pots)]].value = op[2]
                used.add((len(used), "p"))
                go(60)
            elif op[0] == "rig" and case["device"]:
                dev.load(op[1])
                go(50)
            elif op[0] == "param" and case["device"]:
                dev.set(*op[1], op[2])
                dev.report(*op[1])
                go(30)
            elif op[0] == "midi":
                app.port.push(op[1])
                go(30)
            elif op[0] == "mute":
                dev.mute = op[1]
            elif op[0] == "wait":
                go(op[1])
            for m in app.port.sent:
                expect(wire_ok(m), lambda: f"invalid MIDI message sent at {op}: {m}")
            for d in labels:
                expect(isinstance(d.text, str), lambda: f"label shows {d.text!r} after {op}")
                c = d.back_color
                if c is not None:
                    expect(len(c) == 3 and all(isinstance(x, int) and 0 <= x <= 255 for x in c), lambda: f"label colour is {c!r} after {op}")
        rec.nontrivial_if(len(used) >= 5 and app.port.sent)


TESTS = [Test("zoo", cases, run, quick=1200, thorough=30000)]
