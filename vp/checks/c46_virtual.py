"""C46: the virtual Kemper"""
import os
import shutil
import tempfile

from hypothesis import strategies as st

from .. import gens
from ..app import expect
from ..emulator import Emulator
from ..kit import Test
from ..shipped import Midi, to_bytes
from ..virtual import virtual
from ..world import Clock


ID = "C46"
SCALE = 1
RULE = ("'wire': raw message histories (requests, set messages, effect, tuner, tempo, morph, bank, rig and program messages, beacons with all leases, foreign messages, names for the message monitor, changes at the device, waiting) "
        "against a reference model of the device, every message of the virtual device is compared; 'session': the firmware in the emulator, connected to the virtual device, after histories of presses and changes at the device LEDs and "
        "labels agree with its parameters. Non-trivial: a session was started and at least four parameters or rigs were changed")

PAGES = {17: 50, 18: 51, 19: 52, 20: 53, 22: 56, 24: 58, 26: 60, 27: 60, 28: 61, 29: 61}
SET = [(p, n) for p in (50, 51, 52, 53, 56, 58) for n in (0, 3)] + [(127, 126)]
FREE = [(60, 0), (60, 3), (61, 0), (61, 3), (5, 1), (5, 6), (5, 11), (5, 36), (10, 2), (10, 4), (4, 1), (74, 3), (11, 9), (125, 0x6b), (60, 69)]
STRINGS = [(0, 1), (0, 16), (0, 3), (0, 4), (0, 32)]
TUNER_DATA = [(125, 84), (124, 15)]
PULSE = (124, 0)
STEP = 5


def request(a, fn=0x41):
    return [0xf0, 0, 0x20, 0x33, 2, 0x7f, fn, 0, *a, 0xf7]


def parsed(m):
    """What a message of the device says"""
    expect(all(isinstance(b, int) and 0 <= b < 256 for b in m), lambda: f"not a MIDI message: {m}")
    if m[0] == 0xf0:
        expect(m[-1] == 0xf7 and all(b < 128 for b in m[1:-1]) and m[1:4] == [0, 0x20, 0x33], lambda: f"not a message of a Kemper: {m}")
        d = m[4:-1]
        if d[:5] == [2, 0x7f, 0x7e, 0, 0x7f]:
            return ("sense", d[5])
        if d[:4] == [0, 0, 1, 0] and len(d) == 8:
            return ("value", (d[4], d[5]), d[6] * 128 + d[7])
        if d[:4] == [0, 0, 3, 0] and d[-1] == 0:
            return ("string", (d[4], d[5]), "".join(map(chr, d[6:-1])))
    elif m[0] == 0xb0 and len(m) == 3:
        return ("cc", m[1], m[2])
    elif m[0] == 0xc0 and len(m) == 2:
        return ("pc", m[1])
    expect(False, lambda: f"unknown message {m}")


class Model:
    """What the controller may rely on"""

    def __init__(self, v):
        self.v = v
        self.now = 0
        self.params, self.strings = {}, {}
        self.names = {}
        self.rig = 0
        self.set, self.until, self.steps = None, None, None
        self.pulse = None
        self.changes = self.sessions = 0
        self.tune = False

    def send(self, *messages, lenient=False):
        self.v("receive", messages=list(messages), lenient=lenient)
        return [parsed(m) for m in self.v.take()]

    @property
    def active(self):
        return self.set is not None

    def request(self, a):
        got = self.send(request(a))
        expect(len(got) == 1 and got[0][:2] == ("value", a), lambda: f"request of parameter {a} is answered with {got}")
        v = got[0][2]
        if a in self.params:
            expect(v == self.params[a], lambda: f"parameter {a} is reported as {v}, its value is {self.params[a]}")
        self.params[a] = v
        return v

    def string(self, a):
        got = self.send(request(a, 0x43))
        expect(len(got) == 1 and got[0][:2] == ("string", a), lambda: f"request of the string {a} is answered with {got}")
        v = got[0][2]
        if a == (0, 1):
            self.check_name(v)
        elif a in self.strings:
            expect(v == self.strings[a], lambda: f"the string {a} is reported as {v!r}, its value is {self.strings[a]!r}")
        self.strings[a] = v
        return v

    def check_name(self, v):
        k = self.rig % 25
        expect(self.names.setdefault(k, v) == v, lambda: f"rig {self.rig} is called {v!r}, was {self.names[k]!r}")
        expect(all(n != v for i, n in self.names.items() if i != k), lambda: f"rig {self.rig} has the name of another one: {v!r}")

    def changed(self, a, value, got):
        """Parameter a has been set"""
        covered = self.active and a in SET and 1 <= self.set <= 4
        old = self.params.get(a)
        self.params[a] = value
        self.changes += 1
        want = [("value", a, value)]
        if covered and old is None:
            ok = got in ([], want)
        elif covered and old != value:
            ok = got == want
        else:
            ok = got == [] or covered and got == want
        expect(ok, lambda: f"parameter {a} set from {old} to {value}, parameter set {self.set}: the device sends {got}")

    def rig_changed(self, rig, got):
        old, self.rig = self.rig, rig
        self.changes += 1
        covered = self.active and 1 <= self.set <= 4
        names = [g[2] for g in got if g[:2] == ("string", (0, 1))]
        rest = [g for g in got if g[:2] != ("string", (0, 1)) and g != ("value", (0, 11), 0)]
        for n in names:
            self.check_name(n)
        if covered:
            expect(rest and all(g[:2] == ("cc", 32) or g[0] == "pc" for g in rest) and rest[-2:] == [("cc", 32, rig // 128), ("pc", rig % 128)], lambda: f"rig changed from {old} to {rig}: the device reports {got}")
            if self.set >= 2 and rig % 25 != old % 25:
                expect(names, lambda: f"rig changed from {old} to {rig}: the device does not report the name: {got}")
        else:
            expect(not rest and not names, lambda: f"rig changed from {old} to {rig} without a session: the device sends {got}")
        date = self.strings.pop((0, 3), None)
        if date is not None and rig != old:
            expect(self.string((0, 3)) != date, lambda: f"rig changed from {old} to {rig}: the rig date is still {date}")
        self.string((0, 1))
        # The morph state may be reset
        m = self.params.pop((0, 11), None)
        if m is not None and not self.fades:
            expect(self.request((0, 11)) in (0, m), lambda: f"morph state {self.params[(0, 11)]} after a rig change, was {m}")

    def advance(self, ms):
        start = self.now
        self.v("advance", ms=ms, step=STEP)
        got = [parsed(m) for m in self.v.take()]
        self.now += ms
        live = 0
        if self.active:
            live = max(min(self.now, self.until) - start, 0)
        senses = [g[1] for g in got if g[0] == "sense"]
        expect(live / (500 + STEP) - 1 <= len(senses) <= live / 500 + 1 if self.active else not senses,
               lambda: f"{len(senses)} sense messages in {ms} ms, {live} of them in a session")
        for s in senses:
            if self.steps is not None:
                expect(s == (self.steps + 1) % 128 or s == 0 and self.now > self.until, lambda: f"sense message {s} after {self.steps}")
            self.steps = s
        if self.active and self.now > self.until + 2 * STEP:
            self.set = self.until = self.steps = None
        data = {a: [g[2] for g in got if g[:2] == ("value", a)] for a in TUNER_DATA}
        for a, x in data.items():
            expect(len(x) >= ms / (20 + 2 * STEP) - 1 if self.tune else not x, lambda: f"tuner {'on' if self.tune else 'off'}: {len(x)} values of {a} in {ms} ms")
        pulse = [g[2] for g in got if g[:2] == ("value", PULSE)]
        expect(self.active or live or not pulse, lambda: f"tempo pulse without a session")
        for p in pulse:
            expect(p in (0, 1) and (self.pulse is None or p != self.pulse), lambda: f"tempo pulse {pulse}, was {self.pulse}")
            self.pulse = p
        if live == ms and 1 <= self.set_before <= 4 and self.bpm:
            iv = 30000 / self.bpm
            # The tempo is rounded to whole beats
            expect(ms / (iv * 1.05 + 2 * STEP) - 1 <= len(pulse) <= ms / (iv * 0.95) + 1, lambda: f"{len(pulse)} changes of the tempo pulse in {ms} ms at {self.bpm} bpm")
        elif not live:
            self.pulse = None
        if not (live == ms and 1 <= self.set_before <= 4):
            self.pulse = None
        rest = [g for g in got if g[0] != "sense" and not (g[0] == "value" and g[1] in (*TUNER_DATA, PULSE))]
        expect(not rest, lambda: f"unexpected messages {rest}")
        if self.active and abs(self.now - self.until) <= 3 * STEP:
            # Not at the very moment the session ends
            self.advance(8 * STEP)

    set_before = 0
    bpm = None
    fades = False


def run_wire(case, rec):
    v = virtual()
    v("reset", options={"productType": 2, "simulateMorphBug": case["bug"]})
    m = Model(v)
    v.take()
    for a in [tuple(x) for x in case["known"]]:
        m.request(a)
    m.bpm = m.request((4, 0)) / 64
    m.string((0, 1))

    def tempo(value):
        m.params.pop((4, 0))
        got = m.request((4, 0))
        expect(abs(got - value) <= 33, lambda: f"tempo set to {value / 64} bpm, the device has {got / 64} bpm")
        m.bpm = got / 64

    def session(got):
        for g in got:
            if g[0] == "value":
                a = g[1]
                if a in SET and a in m.params:
                    expect(m.params[a] == g[2], lambda: f"new session: {a} reported as {g[2]}, is {m.params[a]}")
                elif a in SET:
                    m.params[a] = g[2]
                else:
                    expect(a in TUNER_DATA or a == PULSE, lambda: f"new session with parameter set {m.set}: {g}")
                    if a == PULSE:
                        m.pulse = g[2]
            elif g[0] == "string":
                expect(g[1] == (0, 1) and m.set != 1, lambda: f"new session with parameter set {m.set}: {g}")
                m.check_name(g[2])
        have = [g[1] for g in got if g[0] == "value"]
        rig = [g for g in got if g[0] in ("cc", "pc")]
        if 1 <= m.set <= 4:
            for a in SET:
                expect(have.count(a) == 1, lambda: f"new session with parameter set {m.set}: parameter {a} is reported {have.count(a)} times")
            expect(rig == [("cc", 32, m.rig // 128), ("pc", m.rig % 128)], lambda: f"new session: rig {m.rig} reported as {rig}")
            if m.set >= 2:
                expect(any(g[:2] == ("string", (0, 1)) for g in got), "new session: the rig name is not reported")
        else:
            expect(not got, lambda: f"new session with parameter set {m.set}: {got}")

    for op in case["ops"]:
        kind = op[0]
        if kind == "request":
            m.request(tuple(op[1]))
        elif kind == "string":
            m.string(tuple(op[1]))
        elif kind in ("set", "user"):
            a = tuple(op[1])
            value = op[2] & 1 if a == (127, 126) else op[2]
            if kind == "set":
                got = m.send(request(a, 1)[:-1] + [value >> 7, value & 127, 0xf7])
            else:
                v("set", key=["nrpn", list(a)], value=value)
                got = [parsed(x) for x in v.take()]
            m.changed(a, value, got)
            if a == (127, 126):
                m.tune = value == 1
            if a == (4, 0):
                tempo(value)
        elif kind == "effect":
            a = (PAGES[op[1]], 3)
            m.changed(a, op[2], m.send([0xb0, op[1], op[2]]))
        elif kind == "tuner":
            m.changed((127, 126), op[1], m.send([0xb0, 31, op[1]]))
            m.tune = bool(op[1])
        elif kind == "pedal":
            if not m.fades:
                m.changed((0, 11), op[1] * 128, m.send([0xb0, 11, op[1]]))
        elif kind == "morph":
            if m.fades:
                continue
            old = m.request((0, 11))
            got = m.send([0xb0, 80, 1]) + m.send([0xb0, 80, 0])
            expect(not got, lambda: f"morph button: {got}")
            if not case["bug"]:
                m.params.pop((0, 11))
                m.fades = True
                m.advance(5000)
                m.fades = False
                want = 0 if old > 8191 else 16383
                expect(m.request((0, 11)) == want, lambda: f"morph button at {old}: after five seconds the morph state is {m.params[(0, 11)]}")
        elif kind == "select":
            messages = []
            if op[1] is not None:
                messages.append([0xb0, 47, op[1]])
            messages += [[0xb0, 50 + op[2], 1], [0xb0, 50 + op[2], 0]]
            got = [g for x in messages for g in m.send(x)]
            rig = (m.rig // 5 if op[1] is None else op[1]) * 5 + op[2]
            same = rig == m.rig
            m.fades = same and not case["bug"]
            m.rig_changed(rig, got)
            if m.fades:
                m.params.pop((0, 11), None)
                m.advance(5000)
                m.fades = False
            elif not case["bug"]:
                # Another rig is not morphed
                old = m.request((0, 11))
                m.advance(400)
                expect(m.request((0, 11)) == old, "another rig was selected, and it is morphed")
        elif kind == "bank":
            got = m.send([0xb0, 48 if op[1] else 49, 0])
            m.rig_changed((m.rig + (5 if op[1] else -5)) % 625, got)
        elif kind == "program":
            got = m.send([0xb0, 32, op[1] // 128]) + m.send([0xc0, op[1] % 128])
            m.rig_changed(op[1], got)
        elif kind == "userRig":
            v("rig", value=op[1])
            m.rig_changed(op[1], [parsed(x) for x in v.take()])
        elif kind == "tap":
            got = m.send([0xb0, 30, 1])
            m.bpm = None
            got += m.send([0xb0, 30, 0])
            start = m.now
            m.advance(op[1])
            got += m.send([0xb0, 30, 1]) + m.send([0xb0, 30, 0])
            expect(not got, lambda: f"tap: {got}")
            tempo(60000 / (m.now - start) * 64)
        elif kind == "beacon":
            was = m.set
            m.set, m.until = op[1], m.now + op[3] * 2000
            m.set_before = op[1]
            got = m.send([0xf0, 0, 0x20, 0x33, 2, 0x7f, 0x7e, 0, 0x40, op[1], op[2], op[3], 0xf7])
            if op[2] & 1:
                m.sessions += 1
                session(got)
            else:
                expect(not got, lambda: f"beacon without initialization: {got}")
            if was != op[1]:
                m.pulse = None
        elif kind == "stay":
            # A long session
            for _ in range(op[1] if m.active else 0):
                m.until = m.now + 30000
                got = m.send([0xf0, 0, 0x20, 0x33, 2, 0x7f, 0x7e, 0, 0x40, m.set, 0x2e, 15, 0xf7])
                expect(not got, lambda: f"beacon without initialization: {got}")
                m.advance(10000)
        elif kind == "foreign":
            got = m.send(op[1], lenient=True)
            expect(not got, lambda: f"{op[1]} is answered with {got}")
        elif kind == "name":
            v("name", message=op[1])
            got = v.take()
            expect(not got, lambda: f"asked for the name of {op[1]}, the device sends {got}")
        elif kind == "wait":
            m.advance(op[1])
        m.advance(STEP)
        if case["verify"]:
            for a in m.params:
                if a != (0, 11) or not m.fades:
                    m.request(a)
            m.string((0, 1))
    for a in list(m.params):
        m.request(a)
    for a in list(m.strings):
        m.string(a)
    rec.nontrivial_if(m.sessions and m.changes >= 4)
    rec.label("changes", m.changes)
    rec.label("sessions", m.sessions)


def wire():
    known = st.one_of(st.sampled_from(SET), st.sampled_from(FREE), st.just((4, 0)), st.just((0, 11)))
    other = st.tuples(st.integers(1, 3), gens.b7)
    numeric = st.one_of(known, known, st.sampled_from(SET), other)
    settable = numeric.filter(lambda a: True)
    value = st.one_of(st.sampled_from([0, 1, 127, 128, 8192, 16383]), gens.v14)
    rig = st.one_of(st.integers(0, 9), st.integers(0, 624))
    foreign = st.one_of(
        st.tuples(st.sampled_from([0, 1, 3, 127]), st.sampled_from([0x41, 0x43, 0x01]), st.sampled_from(SET)).map(lambda x: [0xf0, 0, 0x20, 0x33, x[0], 0x7f, x[1], 0, *x[2], 0, 5, 0xf7]),
        st.tuples(st.sampled_from([[0, 0x20, 0x34], [0, 0x21, 0x33], [1, 0x20, 0x33], [0x7d, 2, 0x7f]]), st.sampled_from(SET)).map(lambda x: [0xf0, *x[0], 2, 0x7f, 0x41, 0, *x[1], 0xf7]),
        st.sampled_from([[0x90, 17, 1], [0xf8], [0xe0, 17, 1], [0xd0, 4], [0xb5, 17, 0], [0xc3, 12]]))
    op = st.one_of(
        st.tuples(st.just("request"), numeric),
        st.tuples(st.just("string"), st.sampled_from(STRINGS)),
        st.tuples(st.sampled_from(["set", "set", "user"]), settable, value),
        st.tuples(st.just("effect"), st.sampled_from(sorted(PAGES)), st.integers(0, 1)),
        st.tuples(st.just("effect"), st.sampled_from(sorted(PAGES)), st.integers(0, 1)),
        st.tuples(st.just("tuner"), st.integers(0, 1)),
        st.tuples(st.just("pedal"), gens.b7),
        st.tuples(st.just("morph")),
        st.tuples(st.just("select"), st.one_of(st.none(), st.integers(0, 1), st.integers(0, 124)), st.integers(0, 4)),
        st.tuples(st.just("bank"), st.booleans()),
        st.tuples(st.just("program"), rig),
        st.tuples(st.just("userRig"), rig),
        st.tuples(st.just("tap"), st.integers(50, 400).map(lambda x: x * STEP)),
        st.tuples(st.just("beacon"), st.sampled_from([2, 2, 2, 1, 3, 4, 0, 9]), st.sampled_from([1, 3, 0x23, 0x2f, 0, 2, 0x2e, 0x7f]), st.integers(1, 6)),
        st.tuples(st.just("beacon"), st.just(2), st.just(0x23), st.just(15)),
        st.tuples(st.just("stay"), st.sampled_from([1, 2, 7])),
        st.tuples(st.just("foreign"), foreign),
        st.tuples(st.just("name"), st.one_of(foreign, numeric.map(request), st.tuples(settable, value).map(lambda x: request(x[0], 1)[:-1] + [x[1] >> 7, x[1] & 127, 0xf7]),
                                             st.tuples(gens.b7, gens.b7).map(lambda x: [0xb0, *x]), gens.b7.map(lambda x: [0xc0, x]), st.just(request((0, 1), 0x43)),
                                             st.just([0xf0, 0, 0x20, 0x33, 2, 0x7f, 0x7e, 0, 0x40, 2, 1, 5, 0xf7]))),
        st.tuples(st.just("wait"), st.sampled_from([20, 500, 1000, 2000, 4000, 13000])))
    return st.fixed_dictionaries({"bug": st.booleans(), "verify": st.booleans(), "known": st.lists(known, max_size=8, unique=True), "ops": st.lists(op, min_size=4, max_size=30)})


# ---------------------------------------------------------------------------------------------------------------------

SLOTS = ["A", "B", "C", "D", "X", "MOD", "DLY", "REV"]
SLOT_PAGES = dict(zip(SLOTS, (50, 51, 52, 53, 56, 58, 60, 61)))
# port of the switch, first LED
SWITCHES = [("1", 1, 0), ("2", 25, 3), ("3", 24, 6), ("4", 23, 9), ("UP", 20, 12), ("A", 9, 15), ("B", 10, 18), ("C", 11, 21), ("D", 18, 24), ("DOWN", 19, 27)]

DISPLAY = """
from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.ui.elements import DisplayLabel
from pyswitch.clients.kemper import KemperRigNameCallback
from pyswitch.controller.callbacks.parameter_display import ParameterDisplayCallback
from pyswitch.clients.kemper.mappings.rig import MAPPING_RIG_COMMENT
from pyswitch.clients.local.callbacks.splashes import SplashesCallback

LAYOUT = { "font": "/fonts/H20.pcf" }
Splashes = SplashesCallback(DisplayElement(bounds = DisplayBounds(0, 0, 240, 240), children = [
    DisplayLabel(bounds = DisplayBounds(0, 0, 240, 40), layout = LAYOUT, callback = KemperRigNameCallback(show_rig_id = True)),
    DisplayLabel(bounds = DisplayBounds(0, 40, 240, 40), layout = LAYOUT, callback = ParameterDisplayCallback(mapping = MAPPING_RIG_COMMENT(), default_text = "?"))
]))
"""

ACTIONS = {
    **{s: f"EFFECT_STATE(slot_id = KemperEffectSlot.EFFECT_SLOT_ID_{s})" for s in SLOTS},
    **{f"rig{i}": f"RIG_SELECT(rig = {i}, display_mode = RIG_SELECT_DISPLAY_TARGET_RIG)" for i in range(1, 6)},
    **{f"rig{b}.{i}": f"RIG_SELECT(bank = {b}, rig = {i}, display_mode = RIG_SELECT_DISPLAY_TARGET_RIG)" for b, i in ((1, 1), (3, 4), (27, 2), (125, 5))},
    "up": "BANK_UP()", "down": "BANK_DOWN()", "tuner": "TUNER_MODE()", "amp": "BINARY_SWITCH(MAPPING_AMP_STATE(), color = Colors.RED)",
    "bank3": "BANK_SELECT(bank = 3)", "fixed": "FIXED_EFFECT_STATE(0)", "tap": "TAP_TEMPO(use_leds = False)",
}


def inputs(actions):
    lines = ["from pyswitch.clients.kemper import KemperEffectSlot", "from pyswitch.colors import Colors",
             "from pyswitch.clients.kemper.actions.effect_state import EFFECT_STATE", "from pyswitch.clients.kemper.actions.rig_select import RIG_SELECT, RIG_SELECT_DISPLAY_TARGET_RIG",
             "from pyswitch.clients.kemper.actions.bank_up_down import BANK_UP, BANK_DOWN", "from pyswitch.clients.kemper.actions.bank_select import BANK_SELECT",
             "from pyswitch.clients.kemper.actions.tuner import TUNER_MODE", "from pyswitch.clients.local.actions.binary_switch import BINARY_SWITCH",
             "from pyswitch.clients.kemper.actions.tempo import TAP_TEMPO", "from pyswitch.clients.kemper.actions.fixed_fx import FIXED_EFFECT_STATE", "from pyswitch.clients.kemper.mappings.amp import MAPPING_AMP_STATE", "from pyswitch.hardware.devices.pa_midicaptain_10 import *", "Inputs = ["]
    for (name, _, _), a in zip(SWITCHES, actions):
        lines.append(f'  {{ "assignment": PA_MIDICAPTAIN_10_SWITCH_{name}, "actions": [{ACTIONS[a]}] }},')
    return "\n".join(lines + ["]"])


def run_session(case, rec):
    v = virtual()
    v("reset", options={"productType": 2, "simulateMorphBug": True})
    v.take()
    tmp = tempfile.mkdtemp(prefix="verif-virtual-")
    changes = pressed = 0
    try:
        for n, code in (("inputs", inputs(case["actions"])), ("display", DISPLAY)):
            with open(os.path.join(tmp, n + ".py"), "w") as h:
                h.write(code)
        clock = Clock(50000)
        emu = Emulator(tmp, clock, switches=[p for _, p, _ in SWITCHES], encoders=[2], pots=[27, 28], leds=30)
        midi = Midi()
        with emu:
            emu.start()

            def wait(ms):
                for _ in range(ms // 10):
                    clock.advance(10)
                    emu.tick()
                    out = midi.take(emu.midi.out)
                    if out:
                        v("receive", messages=[list(to_bytes(r)) for r in out])
                    v("advance", ms=10, step=5)
                    emu.midi.messageQueue.extend(v.take())

            def press(i):
                port = SWITCHES[i][1]
                emu.switch(port, True)
                wait(50)
                emu.switch(port, False)
                wait(50)

            def value(*keys):
                return v("values", keys=[["nrpn", list(k)] for k in keys])

            def verify(where):
                keys = [(SLOT_PAGES[s], n) for s in SLOTS for n in (0, 3)] + [(127, 126), (10, 2), (5, 1), (0, 1), (0, 4)]
                *values, rig = value(*keys)
                p = dict(zip(keys, values))
                for a, (name, _, led) in zip(case["actions"], SWITCHES):
                    if a in SLOTS:
                        on = p[(SLOT_PAGES[a], 3)] and p[(SLOT_PAGES[a], 0)]
                    elif a == "tuner":
                        on = p[(127, 126)]
                    elif a == "amp":
                        on = p[(10, 2)]
                    elif a == "fixed":
                        on = p[(5, 1)]
                    elif a.startswith("rig") and "." in a:
                        b, r = map(int, a[3:].split("."))
                        on = rig == (b - 1) * 5 + r - 1
                    else:
                        continue
                    lit = max(emu.leds[led]) > 20
                    expect(lit == bool(on), lambda: f"{where}: LED of {a} at switch {name} is {emu.leds[led]}; values at the virtual device: {p}, rig {rig}")
                want = f"{rig // 5 + 1}-{rig % 5 + 1} {p[(0, 1)]}{p[(0, 4)]}".replace(" ", "")
                expect(emu.screen()[0].startswith(want), lambda: f"{where}: the display shows {emu.screen()[0]!r}, the virtual device has {want!r}")

            wait(2500)
            verify("after connecting")
            settled = True
            for no, op in enumerate(case["ops"]):
                before = value(*[(SLOT_PAGES[s], n) for s in SLOTS for n in (0, 3)], (127, 126))
                if op[0] == "press":
                    i = op[1] % len(SWITCHES)
                    a = case["actions"][i]
                    press(i)
                    pressed += 1
                    after = value(*[(SLOT_PAGES[s], n) for s in SLOTS for n in (0, 3)], (127, 126))
                    rig, now = before[-1], after[-1]
                    # The controller may not know changes at the device yet
                    if not settled:
                        pass
                    elif a in SLOTS:
                        k = 2 * SLOTS.index(a)
                        if before[k]:
                            expect(bool(after[k + 1]) != bool(before[k + 1]), lambda: f"{a} was pressed with state {before[k + 1]}, the virtual device has {after[k + 1]}")
                    elif a == "tuner":
                        expect(bool(after[-2]) != bool(before[-2]), lambda: f"tuner was pressed with state {before[-2]}, the virtual device has {after[-2]}")
                    elif a in ("up", "down"):
                        expect(now == (rig + (5 if a == "up" else -5)) % 625, lambda: f"bank {a} at rig {rig}: the virtual device has {now}")
                    elif a == "bank3":
                        expect(now == 10 + rig % 5, lambda: f"bank 3 selected at rig {rig}: the virtual device has {now}")
                    elif a.startswith("rig"):
                        b, r = map(int, a[3:].split(".")) if "." in a else (None, int(a[3:]))
                        if b is not None:
                            expect(now == (b - 1) * 5 + r - 1, lambda: f"{a} at rig {rig}: the virtual device has {now}")
                        else:
                            expect(now == rig // 5 * 5 + r - 1, lambda: f"{a} at rig {rig}: the virtual device has {now}")
                elif op[0] == "user":
                    v("set", key=["nrpn", list(op[1])], value=op[2])
                    settled = False
                elif op[0] == "rig":
                    v("rig", value=op[1])
                    settled = False
                changes += 1
                emu.midi.messageQueue.extend(v.take())
                if op[-1]:
                    wait(1600)
                    settled = True
                    verify(f"after operation {no} {op}")
                else:
                    wait(50)
            wait(2000)
            verify("at the end")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rec.nontrivial_if(pressed and changes >= 4)


def session():
    slot = st.tuples(st.sampled_from(sorted(SLOT_PAGES.values())), st.sampled_from([0, 3]))
    user = st.one_of(st.tuples(slot.filter(lambda a: a[1] == 0), st.sampled_from([0, 1, 17, 33, 65, 97, 113, 121, 145, 177])), st.tuples(slot.filter(lambda a: a[1] == 3), st.integers(0, 1)),
                     st.tuples(st.sampled_from([(127, 126), (10, 2), (5, 1)]), st.integers(0, 1)))
    settle = st.booleans()
    op = st.one_of(st.tuples(st.just("press"), st.integers(0, 9), settle), st.tuples(st.just("press"), st.integers(0, 9), settle),
                   st.tuples(user, settle).map(lambda x: ("user", x[0][0], x[0][1], x[1])), st.tuples(st.just("rig"), st.integers(0, 624), settle))
    return st.fixed_dictionaries({"actions": st.lists(st.sampled_from(sorted(ACTIONS)), min_size=10, max_size=10, unique=True), "ops": st.lists(op, min_size=3, max_size=12)})


TESTS = [Test("wire", wire, run_wire, quick=6000, thorough=100000), Test("session", session, run_session, quick=500, thorough=10000)]
