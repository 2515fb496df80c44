import atexit
import hashlib
import os
import shutil
import tempfile

from hypothesis import strategies as st
from ..kit import Test
from ..app import expect
from ..shipped import Machine, to_bytes
from .. import gens

ID = "C47"
SCALE = 2
RULE = ("The firmware is started with generated configurations: random subsets of the inputs of each supported device in any order, with one distinguishable action each, and random channels and routings of its MIDI ports; then the pins are operated by an independent wiring table. "
        "Each input must answer to its own pins only and light its own LEDs only, and MIDI bytes must pass the ports unchanged but for the channel. Non-trivial: at least three inputs operated, or three messages passed.")

# Wiring as documented for each device: input -> pins, LED position, in the order around the board for the strobe tuner
WIRING = {
    "PA_MIDICAPTAIN_10": {
        "module": "pa_midicaptain_10",
        "switches": {"SWITCH_1": "GP1", "SWITCH_2": "GP25", "SWITCH_3": "GP24", "SWITCH_4": "GP23", "SWITCH_UP": "GP20", "SWITCH_A": "GP9", "SWITCH_B": "GP10", "SWITCH_C": "GP11", "SWITCH_D": "GP18", "SWITCH_DOWN": "GP19"},
        "around": ["SWITCH_1", "SWITCH_2", "SWITCH_3", "SWITCH_4", "SWITCH_UP", "SWITCH_DOWN", "SWITCH_D", "SWITCH_C", "SWITCH_B", "SWITCH_A"],
        "dark": {"WHEEL_BUTTON": "GP0", "EXP_SWITCH_1": "GP27", "EXP_SWITCH_2": "GP28"},
        "pedals": {"EXP_PEDAL_1": "GP27", "EXP_PEDAL_2": "GP28"},
        "wheels": {"WHEEL_ENCODER": ("GP2", "GP3")},
    },
    "PA_MIDICAPTAIN_MINI": {
        "module": "pa_midicaptain_mini_6",
        "switches": {"SWITCH_1": "GP1", "SWITCH_2": "GP25", "SWITCH_3": "GP24", "SWITCH_A": "GP9", "SWITCH_B": "GP10", "SWITCH_C": "GP11"},
        "around": ["SWITCH_1", "SWITCH_2", "SWITCH_3", "SWITCH_C", "SWITCH_B", "SWITCH_A"],
        "dark": {}, "pedals": {}, "wheels": {},
    },
    "PA_MIDICAPTAIN_NANO": {
        "module": "pa_midicaptain_nano_4",
        "switches": {"SWITCH_1": "GP1", "SWITCH_2": "GP25", "SWITCH_A": "GP9", "SWITCH_B": "GP10"},
        "around": ["SWITCH_1", "SWITCH_2", "SWITCH_B", "SWITCH_A"],
        "dark": {}, "pedals": {}, "wheels": {},
    },
}
SPLASH = '''
from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.clients.local.callbacks.splashes import SplashesCallback
Splashes = SplashesCallback(DisplayElement(bounds = DisplayBounds(0, 0, 240, 240), children = []))
'''
_dir = None


def source(name, text):
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="vp-c47-")
        atexit.register(shutil.rmtree, _dir, True)
    path = os.path.join(_dir, name + "_" + hashlib.sha1(text.encode()).hexdigest()[:16] + ".py")
    if not os.path.exists(path):
        with open(path + ".tmp", "w") as f:
            f.write(text)
        os.replace(path + ".tmp", path)
    return path


def conflict(a, b):
    return {a, b} in ({"EXP_SWITCH_1", "EXP_PEDAL_1"}, {"EXP_SWITCH_2", "EXP_PEDAL_2"})


# ---------------------------------------------------------------- inputs

def cases():
    @st.composite
    def f(draw):
        dev = draw(st.sampled_from(list(WIRING)))
        d = WIRING[dev]
        names = sorted(d["switches"]) + sorted(d["dark"]) + sorted(d["pedals"]) + sorted(d["wheels"])
        full = draw(st.booleans())
        chosen = draw(st.permutations(names))
        if not full:
            chosen = chosen[:draw(st.integers(1, len(names)))]
        use = []
        for n in chosen:
            if not any(conflict(n, u) for u in use):
                use.append(n)
        pins = sorted({*d["switches"].values(), *d["dark"].values()})
        op = st.one_of(st.tuples(st.just("tap"), st.sampled_from(pins), st.just(0)), st.tuples(st.just("tap"), st.sampled_from(pins), st.just(0)), st.tuples(st.just("level"), st.sampled_from(pins), st.integers(0, 1)),
                       st.tuples(st.just("pedal"), st.sampled_from(["GP27", "GP28"]), st.integers(0, 65535)), st.tuples(st.just("turn"), st.just(0), st.integers(1, 5)))
        return {"device": dev, "use": use, "ops": draw(st.lists(op, min_size=3, max_size=20))}
    return f()


def color_of(k):
    return (40 + k, 20 + 3 * k, 10 + 5 * k)


def inputs_source(case):
    d = WIRING[case["device"]]
    lines = ["from pyswitch.hardware.devices.%s import *" % d["module"], "from pyswitch.clients.local.actions.custom import CUSTOM_MESSAGE", "from pyswitch.controller.actions.AnalogAction import AnalogAction", "from pyswitch.controller.actions.EncoderAction import EncoderAction",
             "from pyswitch.controller.client import ClientParameterMapping", "from adafruit_midi.control_change import ControlChange", "Inputs = ["]
    for k, n in enumerate(case["use"]):
        m = f"mapping = ClientParameterMapping.get(name = 'm{k}', set = ControlChange({k}, 0))"
        if n in d["pedals"]:
            a = f"AnalogAction({m})"
        elif n in d["wheels"]:
            a = f"EncoderAction({m})"
        else:
            a = f"CUSTOM_MESSAGE(message = [176, {k}, 1], message_release = [176, {k}, 0], color = {color_of(k)}, led_brightness = 1)"
        lines.append(f"    {{ 'assignment': {case['device']}_{n}, 'actions': [{a}] }},")
    lines.append("]")
    return "\n".join(lines)


COMM = '''
from pyswitch.controller.midi import MidiRouting
from pyswitch.hardware.devices.pa_midicaptain import PA_MIDICAPTAIN_USB_MIDI, PA_MIDICAPTAIN_DIN_MIDI
%s
Communication = { "midi": { "routings": [%s] } }
'''
PLAIN = COMM % ("_USB = PA_MIDICAPTAIN_USB_MIDI()", "MidiRouting(source = _USB, target = MidiRouting.APPLICATION), MidiRouting(source = MidiRouting.APPLICATION, target = _USB)")


def run(case, rec):
    d = WIRING[case["device"]]
    m = Machine(files={"inputs": source("inputs", inputs_source(case)), "display": source("display", SPLASH), "communication": source("comm", PLAIN)})
    by_pin = {}
    for k, n in enumerate(case["use"]):
        pin = d["switches"].get(n) or d["dark"].get(n)
        if pin:
            by_pin[pin] = k
    used = set()

    def script(m):
        for i, n in enumerate(d["around"]):
            for k, u in enumerate(case["use"]):
                if u == n:
                    a = m.w.imp_abs("inputs").Inputs[k]["assignment"]
                    expect(a.get("strobeOrder") == i, lambda: f"{case['device']}_{n} has position {a.get('strobeOrder')} around the board, expected {i}")
        yield from m.wait(100)
        order = list(d["switches"])
        lit = [order.index(n) for n in case["use"] if n in order]
        strip = m.leds
        expect(len(strip) == (3 * (max(lit) + 1) if lit else 0), lambda: f"{len(strip)} LEDs initialized for {case['use']}")
        if m.hw.neopixels:
            expect(m.hw.neopixels[-1].pin == "GP7", lambda: f"LED strip at {m.hw.neopixels[-1].pin}")

        def check(op):
            for k, n in enumerate(case["use"]):
                if n in order:
                    i = order.index(n)
                    group = [tuple(x) for x in m.leds[3 * i:3 * i + 3]]
                    expect(group == [color_of(k)] * 3, lambda: f"the LEDs at {n} show {group} after {op}, expected {color_of(k)}")

        check("start")
        m.usb.take()
        for op, pin, x in case["ops"]:
            before = m.hw.digital.get(pin, 1) if op in ("tap", "level") else None
            if op == "tap":
                want = []
                for level in (0, 1):
                    if level != m.hw.digital.get(pin, 1) and pin in by_pin:
                        want.append(("cc", by_pin[pin], 1 - level))
                    m.hw.digital[pin] = level
                    yield from m.wait(30)
            elif op == "level":
                want = [("cc", by_pin[pin], 1 - x)] if pin in by_pin and x != before else []
                m.hw.digital[pin] = x
            elif op == "pedal":
                m.hw.analog[pin] = x
                want = None
                ks = [k for k, n in enumerate(case["use"]) if d["pedals"].get(n) == pin]
            else:
                pins = ("GP2", "GP3")
                old = m.hw.rotary.get(pins, 0)
                m.hw.rotary[pins] = old + x
                want = None
                ks = [k for k, n in enumerate(case["use"]) if d["wheels"].get(n) == pins]
            yield from m.wait(100)
            got = m.usb.take()
            if want is None:
                expect(all(r[0] == "cc" and r[1] in ks for r in got), lambda: f"{op} {pin} {x} sends {got}, expected controller {ks} only")
                if op == "turn" and ks:
                    expect(got, lambda: f"turning the wheel by {x} sends nothing")
                if op == "pedal" and ks:
                    v = 0 if x < 1024 else min(127, round(x / 512))
                    expect(abs(pedal.get(pin, (0,))[0] - v) <= 1 if not got else abs(got[-1][2] - v) <= 1, lambda: f"pedal at {pin} moved to {x} sends {got}, expected {v}")
                    if got:
                        pedal[pin] = (got[-1][2],)
                if ks:
                    used.add((op, pin))
            else:
                expect(got == want, lambda: f"{op} {pin} {x} sends {got}, expected {want} ({case['use']})")
                if want:
                    used.add(pin)
            check(op)
        yield

    pedal = {}
    m.run(script)
    rec.nontrivial_if(len(used) >= 3)
    rec.label(case["device"])


# ---------------------------------------------------------------- MIDI ports

def midi_cases():
    chan = st.one_of(st.none(), st.integers(0, 15))
    out = st.one_of(st.none(), st.integers(0, 15))
    msg = st.one_of(
        st.tuples(st.just("ch"), st.integers(8, 14), st.integers(0, 15), gens.b7, gens.b7),
        gens.sx(40),
        st.tuples(st.just("raw"), st.sampled_from([0xf8, 0xfa, 0xfb, 0xfc, 0xfe])),
        st.tuples(st.just("unknown"), st.sampled_from([0xf4, 0xf5, 0xf6, 0xf9, 0xfd])))
    return st.fixed_dictionaries({"usb": st.tuples(chan, out), "din": st.tuples(chan, out), "routes": st.lists(st.sampled_from(["usb-app", "din-app", "usb-din", "din-usb"]), unique=True), "press": st.booleans(),
                                  "ops": st.lists(st.tuples(st.sampled_from(["usb", "din"]), msg), min_size=2, max_size=15)})


def run_midi(case, rec):
    def args(c):
        return ", ".join(x for x in ("in_channel = %r" % c[0] if c[0] is not None else "", "out_channel = %r" % c[1] if c[1] is not None else "") if x)

    names = {"usb": "_USB", "din": "_DIN", "app": "MidiRouting.APPLICATION"}
    routes = [r.split("-") for r in case["routes"]] + [["app", "usb"], ["app", "din"]]
    comm = COMM % (f"_USB = PA_MIDICAPTAIN_USB_MIDI({args(case['usb'])})\n_DIN = PA_MIDICAPTAIN_DIN_MIDI({args(case['din'])})", ", ".join(f"MidiRouting(source = {names[a]}, target = {names[b]})" for a, b in routes))
    # at least one source has to be read by the application
    m = Machine(files={"inputs": source("inputs", inputs_source({"device": "PA_MIDICAPTAIN_NANO", "use": ["SWITCH_1"]})), "display": source("display", SPLASH), "communication": source("comm", comm)})
    passed = [0]

    def script(m):
        yield from m.wait(50)
        expect(len(m.hw.uarts) == 1 and m.hw.uarts[0].pins == ("GP16", "GP17") and m.hw.uarts[0].baudrate == 31250, lambda: f"serial ports: {[(u.pins, u.baudrate) for u in m.hw.uarts]}")
        ports = {"usb": (m.hw.usb_in, m.hw.usb_out), "din": (m.hw.uarts[0].inp, m.hw.uarts[0].out)}
        chans = {"usb": case["usb"], "din": case["din"]}
        seen = {"usb": len(ports["usb"][1].data), "din": len(ports["din"][1].data)}

        def new(p):
            data = bytes(ports[p][1].data)
            r = data[seen[p]:]
            seen[p] = len(data)
            return r

        def sends(p, data):
            return bytes([data[0] & 0xf0 | (chans[p][1] or 0)]) + data[1:] if data[0] < 0xf0 else data

        for src, msg in case["ops"]:
            if msg[0] == "ch":
                data = bytes([msg[1] << 4 | msg[2], msg[3]] + ([] if msg[1] in (0xc, 0xd) else [msg[4]]))
            else:
                data = to_bytes(msg)
            ports[src][0].feed(data)
            yield from m.wait(30)
            for p in ("usb", "din"):
                accepted = chans[src][0] is None or data[0] >= 0xf0 or data[0] & 15 == chans[src][0]
                fw = p != src and f"{src}-{p}" in case["routes"] and accepted and msg[0] != "unknown"
                want = sends(p, data) if fw else b""
                got = new(p)
                expect(got == want, lambda: f"{data.hex()} at {src} (channels {case['usb']}, {case['din']}, routes {case['routes']}) yields {got.hex()} at {p}, expected {want.hex()}")
                passed[0] += bool(want)
        for level in (0, 1):
            m.hw.digital["GP1"] = level
            yield from m.wait(30)
            for p in ("usb", "din"):
                got, want = new(p), bytes([0xb0, 0, 1 - level])    # custom messages are sent as they are
                expect(got == want, lambda: f"pressing the switch sends {got.hex()} at {p}, expected {want.hex()}")
        yield

    m.run(script)
    rec.nontrivial_if(passed[0] >= 3)


TESTS = [Test("inputs", cases, run, quick=600, thorough=20000), Test("midi", midi_cases, run_midi, quick=600, thorough=20000)]
