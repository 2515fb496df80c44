"""The emulator of the web application outside of a browser: PySwitchRunner.py and the Python wrappers run
unmodified on the virtual file system which PySwitchRunner.js sets up; the browser (DOM, canvas, MIDI wrapper)
is replaced by recording stand-ins."""
import atexit
import contextlib
import importlib
import io
import os
import re
import shutil
import sys
import tempfile
import types

from .editor import editor
from .world import _delegating

PURGE = ("pyswitch", "inputs", "display", "wrappers", "mocks", "PySwitchRunner", "adafruit_midi", "adafruit_hid", "js", "pyodide", "parser", "displayio", "board", "micropython",
         "adafruit_display_text", "adafruit_display_shapes", "busio", "adafruit_misc", "adafruit_bitmap_font", "fontio", "digitalio", "analogio", "rotaryio", "usb_hid", "neopixel", "fourwire", "usb_midi")


MESSAGES = ("active_sensing", "channel_pressure", "control_change", "midi_continue", "mtc_quarter_frame", "note_off", "note_on", "pitch_bend", "polyphonic_key_pressure", "program_change", "start", "stop",
            "system_exclusive", "timing_clock")


class JsObject:
    """A JavaScript object as seen by Python code"""

    def hasOwnProperty(self, name):
        return name in self.__dict__

    def to_py(self):
        return self.__dict__


class DataSet(JsObject):
    def to_py(self):
        return self     # no plain object, stays a proxy


class Context2D:
    def __init__(self, canvas):
        self.canvas = canvas
        self.fillStyle = self.font = None

    def measureText(self, text):
        return types.SimpleNamespace(width=10 * len(text))

    def fillRect(self, x, y, w, h):
        self.canvas.rects.append((x, y, w, h, self.fillStyle))

    def fillText(self, text, x, y):
        self.canvas.texts.append((text, x, y, self.fillStyle))


class Element:
    def __init__(self, id_):
        self.id = id_
        self.dataset = DataSet()
        self.style = JsObject()
        self.rects, self.texts = [], []
        self.context = Context2D(self)

    def getContext(self, kind):
        return self.context

    # Setting the size of a canvas clears it
    @property
    def width(self):
        return self._w

    @width.setter
    def width(self, w):
        self._w = w
        self.rects, self.texts = [], []

    @property
    def height(self):
        return self._h

    @height.setter
    def height(self, h):
        self._h = h
        self.rects, self.texts = [], []


class Document:
    """The elements PySwitchFrontend.js creates for a device"""

    def __init__(self, switches, pots, encoders, leds):
        self.elements = {}
        for kind, ports in (("switch", switches), ("potentiometer", pots), ("encoder", encoders)):
            for p in ports:
                self.elements[f"pyswitch-{kind}-gp{p}"] = Element(p)
        for i in range(leds):
            self.elements[f"pyswitch-led-{i}"] = Element(i)
        for e in pots:
            self.elements[f"pyswitch-potentiometer-gp{e}"].dataset.value = "0"
        for e in encoders:
            self.elements[f"pyswitch-encoder-gp{e}"].dataset.position = "0"
        self.elements["pyswitch-display"] = Element("display")

    def getElementById(self, name):
        return self.elements.get(name)


class MidiWrapper(JsObject):
    """PythonMidiWrapper.js: the queue of incoming messages, and the output port"""

    def __init__(self):
        self.messageQueue = []
        self.out = bytearray()

    def send(self, packet):
        self.out += bytes(packet)


_fs = None


def filesystem():
    """A folder with the files the emulator loads"""
    global _fs
    if _fs is None:
        d = tempfile.mkdtemp(prefix="verif-emulator-")
        atexit.register(shutil.rmtree, d, True)
        for name, code in editor().call("emulatorFiles").items():
            f = os.path.join(d, name.replace("/home/pyodide/", ""))
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as h:
                h.write(code)
        _fs = d
    return _fs


_protocol = {}


class Emulator:
    def __init__(self, folder, clock, client="kemper", options=None, comm=None, switches=(), pots=(), encoders=(), leds=0, size=(240, 240)):
        self.folder, self.clock = folder, clock
        self.options, self.comm, self.size = options or {}, comm or {}, size
        if client not in _protocol:
            _protocol[client] = editor().call("protocolCode", client=client)
        self.client = client
        self.doc = Document(switches, pots, encoders, leds)
        self.midi = MidiWrapper()
        self.leds_n = leds

    def __enter__(self):
        fs = filesystem()
        self.saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in PURGE}
        for k in self.saved:
            del sys.modules[k]
        self.path, self.cwd, self.bc = list(sys.path), os.getcwd(), sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        sys.path[:] = [self.folder, fs] + [p for p in sys.path if "pyswitch" not in p and "/web/htdocs" not in p]
        os.chdir(fs)
        self.refs = JsObject()
        self.refs.midiWrapper = self.midi
        self.refs.overrideMonotonic = lambda: self.clock.seconds
        clock = self.clock
        self.time = sys.modules["time"]
        sys.modules["time"] = _delegating("time", self.time, monotonic=lambda: clock.seconds, time=lambda: clock.seconds)
        js = types.ModuleType("js")
        js.document, js.externalRefs = self.doc, self.refs
        sys.modules["js"] = js
        timers = types.ModuleType("pyodide.ffi.wrappers")
        timers.set_timeout = lambda f, ms: None
        for n in ("pyodide", "pyodide.ffi"):
            sys.modules[n] = types.ModuleType(n)
        sys.modules["pyodide.ffi.wrappers"] = timers
        importlib.invalidate_caches()
        self.quiet = contextlib.redirect_stdout(io.StringIO())
        self.quiet.__enter__()
        return self

    def __exit__(self, *exc):
        self.quiet.__exit__(None, None, None)
        sys.modules["time"] = self.time
        os.chdir(self.cwd)
        sys.dont_write_bytecode = self.bc
        sys.path[:] = self.path
        for k in [k for k in sys.modules if k.split(".")[0] in PURGE]:
            del sys.modules[k]
        sys.modules.update(self.saved)
        return False

    def start(self):
        # Like for the device (see world.py), all types of MIDI messages are known
        for n in MESSAGES:
            importlib.import_module("adafruit_midi." + n)
        mod = importlib.import_module("PySwitchRunner")
        self.runner = mod.PySwitchRunner("x", "pyswitch", False, 10)
        options = types.SimpleNamespace(to_py=lambda: dict(self.options))
        comm = JsObject()
        comm.__dict__.update(self.comm)
        client = types.SimpleNamespace(getProtocolCode=lambda: _protocol[self.client])
        self.runner.init(*self.size, client, options, comm)

    def tick(self):
        self.runner.tick()

    # -- what the user does and sees
    def switch(self, port, down):
        e = self.doc.getElementById(f"pyswitch-switch-gp{port}")
        if e:
            e.dataset.pushed = "true" if down else "false"

    def pedal(self, port, value):
        self.doc.getElementById(f"pyswitch-potentiometer-gp{port}").dataset.value = str(value)

    def wheel(self, port, position):
        self.doc.getElementById(f"pyswitch-encoder-gp{port}").dataset.position = str(position)

    @property
    def leds(self):
        out = []
        for i in range(self.leds_n):
            d = self.doc.elements[f"pyswitch-led-{i}"].dataset
            out.append(tuple(d.color) if d.hasOwnProperty("color") else (0, 0, 0))
        return out

    def screen(self):
        """(texts without white space, rectangles with colours) drawn"""
        c = self.doc.elements["pyswitch-display"]

        def color(s):
            return tuple(int(float(x)) for x in re.findall(r"[\d.]+", s))
        return "".join(re.sub(r"\s", "", t[0]) for t in c.texts), [r[:4] + (color(r[4]),) for r in c.rects[1:]]
