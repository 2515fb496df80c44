"""C44: the emulator does what the device does"""
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from .. import fakes, gens
from ..app import expect, flat
from ..bridge import web
from ..emulator import Emulator
from ..kemperdev import Device, TUNER
from ..kit import Test
from ..shipped import Attach, Machine, Midi, avoided_types, folders, to_bytes
from ..world import CONTENT, Clock


ID = "C44"
SCALE = 2
RULE = ("differential: a shipped configuration runs on the device (process.py on recording pins, LEDs, display, serial ports) and in the emulator (PySwitchRunner.py and wrappers on the file system which PySwitchRunner.js "
        "sets up, on a recording DOM), with the same history of presses, wheel turns, pedal movements, rig and parameter changes and bursts of MIDI messages; compared in every tick: bytes sent, LED colours, texts and rectangles drawn. "
        "'midi': the connection of the emulated firmware to a MIDI port (JavaScript) delivers all messages of this port, and only those, in both directions in order. "
        "Non-trivial: at least two user actions and at least ten messages received (midi: three)")

# Configurations using another protocol than the emulator are compared with the default communication
FOLDERS = [(n, p) for n, p in folders() if os.path.isfile(os.path.join(p or CONTENT, "inputs.py")) and os.path.isfile(os.path.join(p or CONTENT, "display.py"))]


def gp(pin):
    return int(str(pin).replace("GP", ""))


def run(case, rec):
    name, folder = FOLDERS[case["config"] % len(FOLDERS)]
    folder = folder or CONTENT
    code = open(os.path.join(folder, "inputs.py")).read()
    m = Machine(None, files={n: os.path.join(folder, n + ".py") for n in ("inputs", "display")}, options=case["options"])
    trace = []
    stats = {"actions": 0, "received": 0}
    info = {}

    def script(m):
        dev = Device(rig=case["rig"])
        dev.no_types = avoided_types(name)
        for a, v in (((4, 0), 120 * 64), ((4, 1), 8192), ((0, 11), 0)):
            dev.params[a] = v
        incoming = []
        port = m.ports[0]
        push = port.push

        def recorded(*recs):
            incoming.extend(recs)
            stats["received"] += len(recs)
            push(*recs)
        port.push = recorded
        dev.attach(Attach(m, port))
        digital, analog, rotary = m.pins("digital"), m.pins("analog"), m.pins("rotary")
        inputs = m.w.imp_abs("inputs").Inputs
        pairs = [(i["assignment"]["model"].port_1, i["assignment"]["model"].port_2) for i in inputs if hasattr(i["assignment"]["model"], "position")]
        info.update(clock=m.clock.ms, digital=digital, analog=analog, pairs=pairs, leds=len(m.leds))
        events = []
        pending = [0]

        def snap():
            texts = "".join(re.sub(r"\s", "", i.text) for i, _, _ in flat(m.screen) if isinstance(i, fakes.Label)) if m.screen is not None else ""
            rects = [(i.x + x, i.y + y, i.width, i.height, tuple(i.fill)) for i, x, y in flat(m.screen) if isinstance(i, fakes.Rect)] if m.screen is not None else []
            return list(m.leds), texts, rects

        def one():
            # m.ports were polled just before: what was sent in the last tick has been taken (and answered)
            nonlocal incoming
            sent = port.take()
            if trace:
                trace[-1].update(sent=sent, seen=snap())
            else:
                info["start"] = sent
            dev.tick()
            trace.append({"clock": m.clock.ms, "in": list(incoming), "events": list(events)})
            incoming.clear()
            events.clear()
            yield

        def wait(ms):
            end = m.clock.ms + ms
            while m.clock.ms < end:
                yield from one()

        yield from wait(60)
        dev.report_rig()
        yield from wait(300)
        positions = {}
        for op in case["ops"]:
            if op[0] == "tap" and digital:
                p = digital[op[1] % len(digital)]
                for v, ms in ((0, op[2]), (1, 20)):
                    m.hw.digital[p] = v
                    events.append(("switch", p, not v))
                    yield from wait(ms)
                stats["actions"] += 1
            elif op[0] == "turn" and pairs:
                p = pairs[op[1] % len(pairs)]
                positions[p] = m.hw.rotary[p] = m.hw.rotary.get(p, 0) + op[2]
                events.append(("wheel", p[0], positions[p]))
                yield from wait(50)
                stats["actions"] += 1
            elif op[0] == "pedal" and analog:
                p = analog[op[1] % len(analog)]
                m.hw.analog[p] = op[2]
                events.append(("pedal", p, op[2]))
                yield from wait(50)
                stats["actions"] += 1
            elif op[0] == "rig":
                dev.load(op[1])
                yield from wait(50)
            elif op[0] == "param":
                dev.set(*op[1], op[2])
                dev.report(*op[1])
                yield from wait(30)
            elif op[0] == "burst":
                for r in op[1]:
                    recorded(r)
                yield from wait(30)
            elif op[0] == "flood":
                # Everything once, in fixed amounts per tick
                for i in range(0, len(op[1]), op[2]):
                    for r in op[1][i:i + op[2]]:
                        if r[0] == "param":
                            dev.params[tuple(r[1])] = r[2]
                            dev.report(*r[1])
                        else:
                            recorded(r)
                    yield from one()
                yield from wait(500)
            elif op[0] == "wait":
                yield from wait(op[1])
        yield from wait(300)
        trace[-1].update(sent=port.take(), seen=snap())

    m.run(script)
    rec.nontrivial_if(stats["actions"] >= 2 and stats["received"] >= 10)
    for k, v in stats.items():
        rec.label(k, v)

    tmp = tempfile.mkdtemp(prefix="verif-emulator-")
    try:
        for n in ("inputs", "display"):
            shutil.copy(os.path.join(folder, n + ".py"), tmp)
        clock = Clock(info["clock"])
        emu = Emulator(tmp, clock, options=case["options"], switches=map(gp, info["digital"]), pots=list(map(gp, info["analog"])), encoders=[gp(p[0]) for p in info["pairs"]], leds=info["leds"])
        midi = Midi()
        with emu:
            emu.start()
            for no, t in enumerate(trace):
                where = f"{name}, tick {no} ({clock.ms - info['clock']} ms)"
                for e in t["events"]:
                    getattr(emu, e[0])(gp(e[1]), e[2])
                for r in t["in"]:
                    emu.midi.messageQueue.append(list(to_bytes(r)))
                clock.advance(m.tick_ms)
                emu.tick()
                if "sent" not in t:
                    continue
                sent = midi.take(emu.midi.out)
                want = (info["start"] if no == 0 else []) + t["sent"]
                expect(sent == want, lambda: f"{where}: the emulator sends {sent}, the device {want} (events {t['events']}, received {t['in']})")
                leds, texts, rects = t["seen"]
                expect(emu.leds == leds, lambda: f"{where}: LEDs of the emulator {emu.leds}, of the device {leds}")
                etexts, erects = emu.screen()
                expect(etexts == texts, lambda: f"{where}: the emulator shows {etexts!r}, the device {texts!r}")
                expect(erects == rects, lambda: f"{where}: the emulator draws {[r for r in erects if r not in rects]}, the device {[r for r in rects if r not in erects]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


OPTIONS = {
    "maxConsecutiveMidiMessages": st.integers(1, 30), "clearBuffers": st.booleans(), "maxRequestLifetimeMillis": st.integers(100, 5000), "updateInterval": st.integers(50, 1000),
    "displayDimFactorOn": st.floats(0, 1, width=16), "displayDimFactorOff": st.floats(0, 1, width=16), "ledBrightnessOn": st.floats(0, 1, width=16), "ledBrightnessOff": st.floats(0, 1, width=16),
}


def cases():
    addr = st.one_of(st.tuples(st.sampled_from([0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d]), st.sampled_from([0, 3])), st.just(TUNER), st.just((0x7d, 0x54)), st.just((0x7c, 0x0f)), st.just((4, 1)), st.just((4, 0)), st.just((0, 11)), st.tuples(gens.b7, gens.b7))
    pages = st.sampled_from([0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d])
    state = st.one_of(st.tuples(st.just("param"), st.tuples(pages, st.just(3)), st.integers(0, 1)), st.tuples(st.just("param"), st.tuples(pages, st.just(0)), st.sampled_from([0, 1, 17, 33, 65, 97, 113, 121, 145, 177])))
    tap = st.tuples(st.just("tap"), st.integers(0, 30), st.sampled_from([20, 20, 100, 700]))
    op = st.one_of(
        tap, tap.map(lambda x: x),
        st.tuples(st.just("turn"), st.integers(0, 3), st.integers(-40, 40)),
        st.tuples(st.just("pedal"), st.integers(0, 3), st.integers(0, 65535)),
        st.tuples(st.just("rig"), st.integers(0, 624)),
        st.tuples(st.just("param"), addr, gens.v14),
        st.tuples(st.just("burst"), st.lists(gens.any_message, min_size=1, max_size=30)),
        st.tuples(st.just("flood"), st.lists(st.one_of(state, state, state, gens.any_message), min_size=24, max_size=80), st.integers(8, 24)),
        st.tuples(st.just("wait"), st.sampled_from([10, 210, 450])),
    )
    return st.fixed_dictionaries({"config": st.integers(0, 200), "options": st.one_of(st.just({}), st.fixed_dictionaries({}, optional=OPTIONS)), "rig": st.integers(0, 624),
                                  "ops": st.lists(op, min_size=2, max_size=12)})


# ---------------------------------------------------------------------------------------------------------------------

def run_midi(case, rec):
    """The connection of the emulated firmware to a MIDI port"""
    w = web()
    names = ["A", "B b", "c#3"][:case["ports"]]
    w("reset", ports=names, seed=None)
    queues, port, n = {}, {}, 0
    for op, i, arg in case["ops"]:
        name = names[i % len(names)]
        if op == "wrap":
            if queues:
                # One connection at a time
                for k in list(queues):
                    w("unwrap", id=k)
                    queues.pop(k)
            n += 1
            k = f"w{n}"
            w("wrap", id=k, port=name)
            queues[k], port[k] = [], name
        elif op == "in":
            for m in arg:
                w("deliver", to=name, data=m)
                rec.label("received")
                for k in queues:
                    if port[k] == name:
                        queues[k].append(m)
        for k in queues:
            if op == "out":
                for m in arg:
                    w("write", id=k, data=m)
                got = w.take()
                expect(got == [(port[k], bytes(m)) for m in arg], lambda: f"the firmware sends {arg} to {port[k]!r}, this gets out: {got}")
            elif op == "fetch":
                w("fetch", id=k, max=arg)
                got = w.events.pop()[2]
                want, queues[k] = queues[k][:arg], queues[k][arg:]
                expect(got == want, lambda: f"messages {want} have been received at {port[k]!r}, the firmware gets {got}")
    for k, want in queues.items():
        w("fetch", id=k, max=1000)
        got = w.events.pop()[2]
        expect(got == want, lambda: f"messages {want} have been received at {port[k]!r}, the firmware gets {got}")
    rec.nontrivial_if(n and sum(len(a) for o, _, a in case["ops"] if o == "in") >= 3)


def midi_cases():
    b = st.integers(0, 127)
    message = st.one_of(st.tuples(st.integers(0x80, 0xbf), b, b).map(list), st.tuples(st.integers(0xc0, 0xdf), b).map(list), st.just([0xf8]),
                        st.tuples(st.just(0xf0), st.lists(b, min_size=1, max_size=30), st.just(0xf7)).map(lambda t: [t[0], *t[1], t[2]]))
    messages = st.lists(message, min_size=1, max_size=4)
    i = st.integers(0, 2)
    op = st.one_of(st.tuples(st.just("wrap"), i, st.none()), st.tuples(st.just("in"), i, messages), st.tuples(st.just("in"), i, messages), st.tuples(st.just("in"), st.just(0), messages),
                   st.tuples(st.just("out"), i, messages), st.tuples(st.just("fetch"), i, st.integers(1, 5)))
    return st.fixed_dictionaries({"ports": st.integers(1, 3), "ops": st.lists(op, max_size=12).map(lambda x: [("wrap", 0, None)] + x)})


TESTS = [Test("device", cases, run, quick=900, thorough=12000), Test("midi", midi_cases, run_midi, quick=600, thorough=20000)]
