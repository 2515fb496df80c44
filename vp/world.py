"""A "world": one fresh, isolated instance of the pyswitch package from the working
tree of the repository, with the CircuitPython hardware replaced by recording stand-ins
and the clock owned by the harness.

Every generated case runs in its own world, so no state (mapping singletons, counters,
module constants built at import time) leaks between cases, and every case is a pure
function of the code and of the generated data.
"""
import os
import sys
import types
import importlib.abc
import importlib.util

REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "content", "lib")
CONTENT = os.path.join(REPO, "content")
VENDOR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vendor")

if VENDOR not in sys.path:
    sys.path.insert(0, VENDOR)

import time as _real_time
import gc as _real_gc

# The complete set of MIDI message types is registered once, so that parsing bytes does not
# depend on what the code under test happens to import.
import adafruit_midi  # noqa: E402  (vendored)
import adafruit_midi.active_sensing  # noqa
import adafruit_midi.channel_pressure  # noqa
import adafruit_midi.control_change  # noqa
import adafruit_midi.midi_continue  # noqa
import adafruit_midi.mtc_quarter_frame  # noqa
import adafruit_midi.note_off  # noqa
import adafruit_midi.note_on  # noqa
import adafruit_midi.pitch_bend  # noqa
import adafruit_midi.polyphonic_key_pressure  # noqa
import adafruit_midi.program_change  # noqa
import adafruit_midi.start  # noqa
import adafruit_midi.stop  # noqa
import adafruit_midi.system_exclusive  # noqa
import adafruit_midi.timing_clock  # noqa
import adafruit_hid.keycode  # noqa

from adafruit_midi.control_change import ControlChange
from adafruit_midi.program_change import ProgramChange
from adafruit_midi.system_exclusive import SystemExclusive
from adafruit_midi.midi_message import MIDIMessage, MIDIUnknownEvent

_code_cache = {}


class HarnessError(Exception):
    """Something is wrong with the harness (never with the code under test)."""


def read_source(path):
    with open(path, "rb") as f:
        return f.read()


def code_for(path):
    c = _code_cache.get(path)
    if c is None:
        c = compile(read_source(path), path, "exec", dont_inherit=True)
        _code_cache[path] = c
    return c


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        exec(code_for(self.path), module.__dict__)


class _StubLoader(importlib.abc.Loader):
    def __init__(self, module):
        self.module = module

    def create_module(self, spec):
        return self.module

    def exec_module(self, module):
        pass


class _Finder(importlib.abc.MetaPathFinder):
    """Serves pyswitch.* from the repository, the hardware libraries from stand-ins and, where a
    world asks for it, single files (inputs.py, display.py, ...) by top level name."""

    def __init__(self, world):
        self.world = world

    def find_spec(self, fullname, path=None, target=None):
        w = self.world
        if fullname in w.files:
            return importlib.util.spec_from_loader(fullname, _Loader(w.files[fullname]), origin=w.files[fullname])
        if fullname == "pyswitch" or fullname.startswith("pyswitch."):
            base = os.path.join(w.lib, *fullname.split("."))
            init = os.path.join(base, "__init__.py")
            if os.path.isfile(init):
                spec = importlib.util.spec_from_loader(fullname, _Loader(init), origin=init, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
            # CircuitPython and CPython both treat a directory without __init__ as a package
            if os.path.isdir(base):
                m = types.ModuleType(fullname)
                m.__path__ = [base]
                spec = importlib.util.spec_from_loader(fullname, _StubLoader(m), is_package=True)
                spec.submodule_search_locations = [base]
                return spec
            if os.path.isfile(base + ".py"):
                return importlib.util.spec_from_loader(fullname, _Loader(base + ".py"), origin=base + ".py")
            return None
        if fullname in w.stubs:
            m = w.stubs[fullname]
            return importlib.util.spec_from_loader(fullname, _StubLoader(m), is_package=hasattr(m, "__path__"))
        return None


class Clock:
    """Controlled time. The unit is the millisecond; the code under test reads seconds."""

    def __init__(self, start_ms):
        self.ms = start_ms

    def advance(self, ms):
        self.ms += ms

    @property
    def seconds(self):
        # half a microsecond of slack keeps int(seconds * 1000) == ms in floating point
        return self.ms / 1000 + 0.0000005


def _delegating(name, real, **over):
    m = types.ModuleType(name)
    for k in dir(real):
        if not k.startswith("__"):
            setattr(m, k, getattr(real, k))
    for k, v in over.items():
        setattr(m, k, v)
    return m


class World:
    def __init__(self, start_ms=1_000_000, mem_free=100 * 1024, mem_alloc=50 * 1024, lib=None, files=None):
        from . import fakes
        self.clock = Clock(start_ms)
        self.lib = lib or LIB
        self.files = dict(files or {})
        self.mem_free = mem_free
        self.mem_alloc = mem_alloc
        self.hw = fakes.Hardware(self)
        self.stubs = self.hw.modules()
        self.printed = []
        self._finder = _Finder(self)
        self._saved = {}
        self._open = False

    # ---------------------------------------------------------------- context
    def __enter__(self):
        if self._open:
            raise HarnessError("world entered twice")
        self._purge()
        c = self.clock
        fake_time = _delegating(
            "time", _real_time,
            monotonic=lambda: c.seconds,
            monotonic_ns=lambda: c.ms * 1_000_000,
            time=lambda: c.seconds,
            sleep=lambda s: c.advance(int(s * 1000)),
        )
        fake_gc = _delegating(
            "gc", _real_gc,
            collect=lambda *a: 0,
            mem_free=lambda: self.mem_free,
            mem_alloc=lambda: self.mem_alloc,
        )
        self._saved = {"time": sys.modules["time"], "gc": sys.modules["gc"]}
        sys.modules["time"] = fake_time
        sys.modules["gc"] = fake_gc
        sys.meta_path.insert(0, self._finder)
        self._open = True
        return self

    def __exit__(self, *exc):
        sys.meta_path.remove(self._finder)
        for k, v in self._saved.items():
            sys.modules[k] = v
        self._purge()
        self._open = False
        return False

    def _purge(self):
        for n in list(sys.modules):
            if n == "pyswitch" or n.startswith("pyswitch.") or n in self.stubs or n in self.files:
                del sys.modules[n]

    # ---------------------------------------------------------------- access
    def imp(self, name):
        """Imports a module of the code under test: imp("misc") is pyswitch.misc"""
        full = "pyswitch" + ("." + name if name else "")
        importlib.import_module(full)
        return sys.modules[full]

    def get(self, name, attr):
        return getattr(self.imp(name), attr)

    def imp_abs(self, name):
        importlib.import_module(name)
        return sys.modules[name]


# ------------------------------------------------------------------ MIDI helpers
def dump(msg):
    """A plain, hashable record of a MIDI message, taken at the moment of the call (mappings reuse
    and mutate their message objects)."""
    if msg is None:
        return None
    if isinstance(msg, ControlChange):
        return ("cc", msg.control, msg.value)
    if isinstance(msg, ProgramChange):
        return ("pc", msg.patch)
    if isinstance(msg, SystemExclusive):
        return ("sx", tuple(msg.manufacturer_id), tuple(msg.data))
    if isinstance(msg, MIDIUnknownEvent):
        return ("unknown", msg.status)
    if isinstance(msg, MIDIMessage):
        try:
            return ("raw",) + tuple(msg.__bytes__())
        except Exception as e:  # bad event
            return ("bad", repr(e))
    return ("obj", repr(msg))


def build(rec):
    """The inverse of dump(), from a list or tuple"""
    k = rec[0]
    if k == "cc":
        return ControlChange(rec[1], rec[2])
    if k == "pc":
        return ProgramChange(rec[1])
    if k == "sx":
        return SystemExclusive(bytes(rec[1]), bytes(rec[2]))
    if k == "unknown":
        return MIDIUnknownEvent(rec[1])
    if k == "raw":
        m, _, _ = MIDIMessage.from_message_bytes(bytearray(rec[1:]), tuple(range(16)))
        return m
    raise HarnessError("cannot build " + repr(rec))


KEMPER = (0x00, 0x20, 0x33)


def nrpn_value(page, number, value, func=1, product=2, device=0x7f):
    return ("sx", KEMPER, (product, device, func, 0, page, number, (value >> 7) & 0x7f, value & 0x7f))


def nrpn_string(page, number, text, func=3, product=2, device=0x7f):
    return ("sx", KEMPER, (product, device, func, 0, page, number) + tuple(ord(c) & 0x7f for c in text) + (0,))


def nrpn_request(page, number, func=0x41):
    return ("sx", KEMPER, (2, 0x7f, func, 0, page, number))


def sense():
    return ("sx", KEMPER, (0, 0, 0x7e, 0, 0x7f))


def wire_ok(rec):
    """True if the record could be put on a MIDI wire"""
    try:
        if rec[0] == "cc":
            return isinstance(rec[1], int) and isinstance(rec[2], int) and 0 <= rec[1] <= 127 and 0 <= rec[2] <= 127
        if rec[0] == "pc":
            return isinstance(rec[1], int) and 0 <= rec[1] <= 127
        if rec[0] == "sx":
            return all(isinstance(b, int) and 0 <= b <= 127 for b in rec[1] + rec[2])
    except TypeError:
        return False
    return rec[0] == "raw"
