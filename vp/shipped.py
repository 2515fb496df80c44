"""Runs complete configurations (inputs, display, communication, config files) by the firmware's own entry
point, on recording hardware: pins, serial ports, LED strip and display."""
import contextlib
import io
import os
import types

from . import fakes
from .app import expect, flat
from .kit import Violation
from .world import CONTENT, REPO, World, wire_ok


class Midi:
    """Splits a byte stream into messages, independent of the MIDI library"""

    def __init__(self):
        self.pos = 0

    def take(self, data):
        out = []
        data = bytes(data)
        while self.pos < len(data):
            b = data[self.pos]
            if b == 0xf0:
                end = data.find(0xf7, self.pos)
                expect(end >= 0, lambda: f"system exclusive message without end sent: {data[self.pos:].hex()}")
                body = data[self.pos + 1:end]
                n = 3 if body and body[0] == 0 else 1
                expect(len(body) >= n and all(x < 128 for x in body), lambda: f"invalid system exclusive message sent: {data[self.pos:end + 1].hex()}")
                out.append(("sx", tuple(body[:n]), tuple(body[n:])))
                self.pos = end + 1
                continue
            expect(b >= 0x80, lambda: f"data byte {b} without status sent")
            n = {0x8: 3, 0x9: 3, 0xa: 3, 0xb: 3, 0xc: 2, 0xd: 2, 0xe: 3}.get(b >> 4, {0xf1: 2, 0xf2: 3, 0xf3: 2}.get(b, 1))
            m = data[self.pos:self.pos + n]
            expect(len(m) == n and all(x < 128 for x in m[1:]), lambda: f"invalid MIDI message sent: {m.hex()}")
            out.append(("cc", m[1], m[2]) if b >> 4 == 0xb else ("pc", m[1]) if b >> 4 == 0xc else ("raw",) + tuple(m))
            self.pos += n
        return out


def to_bytes(rec):
    if rec[0] == "cc":
        return bytes((0xb0, rec[1], rec[2]))
    if rec[0] == "pc":
        return bytes((0xc0, rec[1]))
    if rec[0] == "sx":
        return bytes((0xf0, *rec[1], *rec[2], 0xf7))
    if rec[0] == "unknown":
        return bytes((rec[1],))
    return bytes(rec[1:])


class _Port:
    """One end of a cable at the controller: what a device there receives and sends"""

    def __init__(self, inp, out):
        self.inp, self.out = inp, out
        self.midi = Midi()
        self.on_send = None
        self.sent = []

    def push(self, *recs):
        for r in recs:
            self.inp.feed(to_bytes(r))

    def poll(self):
        for r in self.midi.take(self.out.data):
            self.sent.append(r)
            if self.on_send:
                self.on_send(r)

    def take(self):
        r = self.sent
        self.sent = []
        return r


class Stop(BaseException):
    pass


class Machine:
    """script(machine) is a generator: each yield runs one pass of the main loop"""

    def __init__(self, folder=None, files=None, options=None, tick_ms=10, digital=None):
        self.files = {n: os.path.join(CONTENT, n + ".py") for n in ("inputs", "display", "communication", "config")}
        for n in list(self.files):
            if folder and os.path.isfile(os.path.join(folder, n + ".py")):
                self.files[n] = os.path.join(folder, n + ".py")
        self.files.update(files or {})
        self.options = options or {}
        self.tick_ms = tick_ms
        self.digital = digital or {}

    def run(self, script):
        with World(files=self.files) as w, contextlib.redirect_stdout(io.StringIO()):
            self.w = w
            self.hw = w.hw
            self.clock = w.clock
            self.hw.digital.update(self.digital)
            self.usb = _Port(self.hw.usb_in, self.hw.usb_out)
            self.ports = [self.usb]
            w.imp_abs("config").Config.update(self.options)
            mods = [(m, getattr(w.imp("controller." + m), c), c) for m, c in (("controller", "Controller"), ("explore", "ExploreModeController"))]
            machine = self
            self.ticks = 0
            self.controller = None
            steps = None

            def wrap(cls):
                class Driven(cls):
                    def init(self, *a, **kw):
                        r = super().init(*a, **kw)
                        machine.controller = self
                        return r

                    def tick(self, *a, **kw):
                        nonlocal steps
                        if steps is None:
                            for u in machine.hw.uarts:
                                machine.ports.append(_Port(u.inp, u.out))
                            steps = script(machine)
                        for p in machine.ports:
                            p.poll()
                        try:
                            next(steps)
                        except StopIteration:
                            raise Stop() from None
                        machine.clock.advance(machine.tick_ms)
                        machine.ticks += 1
                        r = super().tick(*a, **kw)
                        expect(r is not False, "the main loop ended")
                        return True

                Driven.__name__ = cls.__name__
                return Driven

            for m, cls, name in mods:
                setattr(w.imp("controller." + m), name, wrap(cls))
            try:
                w.imp("process")
            except Stop:
                return self
            raise Violation("the processing loop ended")

    # ------------------------------------------------ to be used by scripts
    def wait(self, ms):
        end = self.clock.ms + ms
        while self.clock.ms < end:
            yield

    @property
    def leds(self):
        return self.hw.neopixels[-1].snapshot() if self.hw.neopixels else []

    @property
    def screen(self):
        return self.hw.displays[-1].current if self.hw.displays else None

    def texts(self):
        return [i.text for i, _, _ in flat(self.screen) if isinstance(i, fakes.Label)] if self.screen is not None else []

    def pins(self, kind):
        return sorted({p for k, p in self.hw.gpio_used if k == kind})


class Attach:
    """Makes a port of the machine look like an App for kemperdev.Device"""

    def __init__(self, machine, port):
        self.w = machine.w
        self.port = port


def folders():
    """All shipped configurations: (name, folder or None, {file: path})"""
    out = [("content", None)]
    for base in ("examples", os.path.join("web", "htdocs", "templates")):
        for d, _, files in sorted(os.walk(os.path.join(REPO, base))):
            if "inputs.py" in files or "communication.py" in files:
                out.append((os.path.relpath(d, REPO), d))
    return out


# Known finding C39 "chrjohns-categories": effect types whose category has no name in this configuration
NAMELESS_TYPES = (68, 69, 70, 75, 76, 77, 78, 79, 80)


def avoided_types(config):
    return NAMELESS_TYPES if config.endswith("chrjohns") else ()
