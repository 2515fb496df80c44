import os

from hypothesis import strategies as st
from ..kit import Test, Violation
from ..app import expect
from ..shipped import Machine, Attach, avoided_types, folders
from ..kemperdev import Device, TUNER
from ..world import CONTENT, nrpn_value, REPO
from .. import gens

ID = "C39"
SCALE = 2
RULE = ("Each configuration shipped in content/, examples/ and the editor's templates is started by the firmware's entry point (process.py) on recording pins, serial ports, LEDs and display, with random documented options of config.py, with or without a (model of a) Kemper device at its MIDI ports; "
        "histories of overlapping presses on all pins, wheel turns, pedal movements, rig and parameter changes at the device, foreign MIDI messages, cut connections and time. Checked: no exception, valid MIDI bytes and LED colours only, all fonts exist, all inputs of the configuration are connected to their pins, "
        "and a rig name shown at the start follows the device. Non-trivial: at least three presses and one change at the device.")

FOLDERS = [f[0] for f in folders()]

OPTIONS = {
    "maxConsecutiveMidiMessages": st.integers(0, 30), "clearBuffers": st.booleans(), "maxRequestLifetimeMillis": st.integers(100, 5000), "updateInterval": st.integers(50, 1000), "enableMidiBridge": st.booleans(),
    "displayDimFactorOn": st.floats(0, 1, width=16), "displayDimFactorOff": st.floats(0, 1, width=16), "ledBrightnessOn": st.floats(0, 1, width=16), "ledBrightnessOff": st.floats(0, 1, width=16),
    "debugStats": st.booleans(), "debugStatsInterval": st.integers(100, 3000), "debugBidirectionalProtocol": st.booleans(), "debugUnparsedMessages": st.booleans(), "debugSentMessages": st.booleans(),
    "excludeMessageTypes": st.lists(st.sampled_from(["SystemExclusive", "ControlChange", "ProgramChange"]), max_size=2), "debugClientStats": st.booleans(),
}


def cases():
    addr = st.one_of(st.tuples(st.sampled_from([0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d]), st.sampled_from([0, 3])), st.just(TUNER), st.just((0x7d, 0x54)), st.just((0x7c, 0x0f)), st.just((4, 1)), st.just((4, 0)), st.just((0, 11)), st.tuples(gens.b7, gens.b7))
    op = st.one_of(
        st.tuples(st.just("tap"), st.integers(0, 30), st.sampled_from([20, 20, 100, 700, 1500])),
        st.tuples(st.just("tap"), st.integers(0, 30), st.sampled_from([20, 20, 100, 700, 1500])),
        st.tuples(st.just("hold"), st.integers(0, 30), st.booleans()),
        st.tuples(st.just("turn"), st.integers(0, 3), st.integers(-40, 40)),
        st.tuples(st.just("pedal"), st.integers(0, 3), st.integers(0, 65535)),
        st.tuples(st.just("rig"), st.integers(0, 624)),
        st.tuples(st.just("param"), addr, gens.v14),
        st.tuples(st.just("param"), st.tuples(st.sampled_from([0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d]), st.just(0)), st.integers(0, 200)),      # effect types
        st.tuples(st.just("midi"), gens.any_message),
        st.tuples(st.just("mute"), st.booleans()),
        st.tuples(st.just("wait"), st.sampled_from([10, 210, 450, 3000])),
    )
    return st.fixed_dictionaries({
        "config": st.sampled_from(FOLDERS), "options": st.one_of(st.just({}), st.fixed_dictionaries({}, optional=OPTIONS)),
        "device": gens.rarely(st.just(False), True, 5), "rig": st.integers(0, 624), "cable": st.integers(0, 1), "ops": st.lists(op, min_size=3, max_size=25),
    })


def run(case, rec):
    folder = dict(folders()).get(case["config"], "gone")
    if folder == "gone":
        return
    m = Machine(folder, options=case["options"])
    stats = {"taps": 0, "changes": 0}

    def script(m):
        dev = Device(rig=case["rig"])
        dev.no_types = avoided_types(case["config"])
        for a, v in (((4, 0), 120 * 64), ((4, 1), 8192), ((0, 11), 0)):
            dev.params[a] = v
        if case["device"]:
            dev.attach(Attach(m, m.ports[case["cable"] % len(m.ports)]))
        inputs = m.w.imp_abs("inputs").Inputs
        digital, analog, rotary = m.pins("digital"), m.pins("analog"), m.pins("rotary")
        # every configured input is connected
        for inp in inputs:
            model = inp["assignment"]["model"]
            kind = type(model).__name__
            if hasattr(model, "pushed"):
                expect(model.port in digital and model.pushed is False, lambda: f"switch {inp['assignment'].get('name')} is not connected to its pin {model.port}")
            elif hasattr(model, "position"):
                expect({model.port_1, model.port_2} <= set(rotary), lambda: f"wheel {inp['assignment'].get('name')} is not connected ({kind})")
            else:
                expect(model.port in analog, lambda: f"pedal {inp['assignment'].get('name')} is not connected ({kind})")
        pairs = [(inp["assignment"]["model"].port_1, inp["assignment"]["model"].port_2) for inp in inputs if hasattr(inp["assignment"]["model"], "position")]

        def settle(ms=900):
            end = m.clock.ms + ms
            while m.clock.ms < end:
                if case["device"]:
                    dev.tick()
                yield

        if case["device"]:
            yield from settle(100)
            dev.report_rig()
        yield from settle()

        def shown():
            return dev.names(dev.rig).replace(" ", "") in "".join(m.texts()).replace("\n", "").replace(" ", "")

        follows = case["device"] and dev.session and shown()
        down = set()
        for op in case["ops"]:
            if op[0] == "tap" and digital:
                p = digital[op[1] % len(digital)]
                m.hw.digital[p] = 0
                yield from settle(op[2])
                m.hw.digital[p] = 1
                down.discard(p)
                yield from settle(20)
                stats["taps"] += 1
            elif op[0] == "hold" and digital:
                m.hw.digital[digital[op[1] % len(digital)]] = 0 if op[2] else 1
                (down.add if op[2] else down.discard)(digital[op[1] % len(digital)])
                yield
            elif op[0] == "turn" and pairs:
                p = pairs[op[1] % len(pairs)]
                m.hw.rotary[p] = m.hw.rotary.get(p, 0) + op[2]
                yield from settle(50)
            elif op[0] == "pedal" and analog:
                m.hw.analog[analog[op[1] % len(analog)]] = op[2]
                yield from settle(50)
            elif op[0] == "rig" and case["device"]:
                dev.load(op[1])
                stats["changes"] += 1
                yield from settle(50)
            elif op[0] == "param" and case["device"]:
                dev.set(*op[1], op[2])
                dev.report(*op[1])
                stats["changes"] += 1
                yield from settle(30)
            elif op[0] == "midi":
                for p in m.ports:
                    p.push(op[1])
                yield from settle(30)
            elif op[0] == "mute":
                # a preselection the device did not hear of stays shown
                follows = follows and not op[1]
                dev.mute = op[1]
                yield
            elif op[0] == "wait":
                yield from settle(op[1])
        # back to normal
        for p in down:
            m.hw.digital[p] = 1
        dev.mute = False
        yield from settle(4000)
        if follows:
            if dev.params[TUNER] & 1 == 0 and dev.preselected is None:
                dev.load((dev.rig + 1) % 625)
                yield from settle(4000)
                rec.label("follows")
                if dev.session:
                    expect(shown(), lambda: f"rig name {dev.names(dev.rig)!r} is not shown: {m.texts()}")
        for f in m.hw.fonts_loaded:
            expect(os.path.isfile(os.path.join(CONTENT, f.lstrip("/"))), lambda: f"font {f} does not exist")

    m.run(script)
    rec.label(case["config"].split("/")[-1])
    rec.nontrivial_if(stats["taps"] >= 3 and (stats["changes"] or not case["device"]))


def start(name):
    return {"config": name, "options": {}, "device": True, "rig": 7, "cable": "DIN" in name, "ops": [["tap", i, 20] for i in range(11)] + [["rig", 33]]}


def nameless():
    folder = dict(folders()).get(next((n for n in FOLDERS if n.endswith("chrjohns")), None))
    if folder is None:
        return False
    m = Machine(folder)

    def script(m):
        dev = Device()
        dev.attach(Attach(m, m.ports[0]))
        for a in list(dev.params):
            if a[1] == 0 and a[0] < 0x40:
                dev.params[a] = 68
        end = m.clock.ms + 4000
        while m.clock.ms < end:
            dev.tick()
            yield

    try:
        m.run(script)
    except Exception:
        return True
    return False


KNOWN = {"chrjohns-categories": nameless}
TESTS = [Test("shipped", cases, run, quick=1500, thorough=15000, examples=[start(n) for n in FOLDERS])]
