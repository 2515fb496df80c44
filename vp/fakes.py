"""Recording stand-ins for the CircuitPython hardware libraries.

They are strict where the real libraries are strict (a NeoPixel strip rejects an index beyond its
end or a component outside 0..255, a Rect needs a valid colour, a label needs a string), because
that is what a user of a physical device would see as a crash."""
import types
from .world import HarnessError, dump, build, LIB
import os


class HardwareFault(Exception):
    """Raised where the real hardware library would raise."""


def check_color(c, what):
    if c is None:
        return
    if isinstance(c, int) and not isinstance(c, bool):
        if not 0 <= c <= 0xFFFFFF:
            raise HardwareFault(f"{what}: colour out of range {c!r}")
        return
    if not isinstance(c, (tuple, list)) or len(c) not in (3, 4) or not all(
            isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 255 for v in c):
        raise HardwareFault(f"{what}: invalid colour {c!r}")


class Group(list):
    def __init__(self, scale=1, x=0, y=0, **kw):
        super().__init__()
        self.scale = scale
        self.x = x
        self.y = y

    def append(self, item):
        list.append(self, item)

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


class Rect:
    def __init__(self, x, y, width, height, *, fill=None, outline=None, stroke=1):
        if width <= 0 or height <= 0:
            raise HardwareFault("Rectangle dimensions must be larger than 0.")
        self.x = x
        self.y = y
        self.width = width
        self.height = height
        self.fill = fill

    @property
    def fill(self):
        return self._fill

    @fill.setter
    def fill(self, c):
        check_color(c, "Rect.fill")
        self._fill = c

    def __setattr__(self, k, v):
        if k in ("x", "y") and not isinstance(v, int):
            raise HardwareFault(f"Rect.{k} must be an integer, got {v!r}")
        object.__setattr__(self, k, v)


class Label:
    def __init__(self, font, *, anchor_point=None, anchored_position=None, text="", color=0xffffff,
                 line_spacing=1.25, scale=1, **kw):
        self.font = font
        self.anchor_point = anchor_point
        self.anchored_position = anchored_position
        self.line_spacing = line_spacing
        self.scale = scale
        self.text = text
        self.color = color

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, t):
        if not isinstance(t, str):
            raise HardwareFault(f"Label.text must be a string, got {t!r}")
        self._text = t

    @property
    def color(self):
        return self._color

    @color.setter
    def color(self, c):
        check_color(c, "Label.color")
        self._color = c


class Font:
    def __init__(self, path):
        self.path = path


def wrap_text_to_pixels(string, max_width, font=None, indent0="", indent1=""):
    """Greedy word wrap with fixed 10 pixel glyphs (words longer than a line are broken), lossless
    apart from the white space at line breaks, like the library's routine."""
    n = max(1, int(max_width) // 10)
    out = []
    for para in string.split("\n"):
        line = ""
        for word in para.split(" "):
            while len(word) > n:
                if line:
                    out.append(line)
                    line = ""
                out.append(word[:n])
                word = word[n:]
            if not line:
                line = word
            elif len(line) + 1 + len(word) <= n:
                line += " " + word
            else:
                out.append(line)
                line = word
        out.append(line)
    return out


class LedStrip:
    """Like neopixel.NeoPixel: fixed number of pixels, components 0..255"""

    def __init__(self, n, log=None):
        self._n = n
        self._px = [(0, 0, 0)] * n
        self.writes = 0

    def __len__(self):
        return self._n

    def __getitem__(self, i):
        return self._px[i]

    def __setitem__(self, i, c):
        if not isinstance(i, int) or not -self._n <= i < self._n:
            raise HardwareFault(f"LED index {i!r} out of range (strip has {self._n})")
        if not isinstance(c, (tuple, list)) or len(c) != 3 or not all(
                isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 255 for v in c):
            raise HardwareFault(f"LED colour {c!r} invalid")
        self.writes += 1
        self._px[i] = tuple(c)

    def fill(self, c):
        for i in range(self._n):
            self[i] = c

    def snapshot(self):
        return list(self._px)


class LedDriver:
    def __init__(self):
        self.leds = None
        self.requested = None

    def init(self, num_leds):
        self.requested = num_leds
        self.leds = LedStrip(num_leds)


class Tft:
    def __init__(self):
        self.shown = []

    @property
    def current(self):
        return self.shown[-1] if self.shown else None

    def show(self, splash):
        self.shown.append(splash)


class DisplayDriver:
    def __init__(self, width=240, height=240):
        self.width = width
        self.height = height
        self.tft = Tft()

    def init(self):
        pass


class FontLoader:
    def __init__(self):
        self.fonts = {}

    def get(self, path):
        if path not in self.fonts:
            self.fonts[path] = Font(path)
        return self.fonts[path]


class Switch:
    def __init__(self):
        self.pushed = False
        self.inits = 0

    def init(self):
        self.inits += 1


class Pot:
    def __init__(self, value=0):
        self.value = value
        self.inits = 0

    def init(self):
        self.inits += 1


class Encoder:
    def __init__(self, position=0):
        self.position = position
        self.inits = 0

    def init(self):
        self.inits += 1


class Port:
    """A MIDI port: messages queued by the harness come in one at a time, everything sent is
    recorded as plain data."""

    LIMIT = 200000

    def __init__(self, name="port", journal=None):
        self.name = name
        self.inbox = []
        self.sent = []
        self.received = []
        self.reads = 0
        self.on_send = None
        self.journal = journal

    def push(self, *recs):
        for r in recs:
            self.inbox.append(r)

    def receive(self):
        self.reads += 1
        if self.reads > self.LIMIT:
            raise HardwareFault("MIDI port polled more than %d times" % self.LIMIT)
        if not self.inbox:
            return None
        r = self.inbox.pop(0)
        self.received.append(tuple(r) if isinstance(r, list) else r)
        if self.journal is not None:
            self.journal.append(("rx", self.name, self.received[-1]))
        return build(r) if isinstance(r, (list, tuple)) else r

    def send(self, msg):
        rec = dump(msg)
        self.sent.append(rec)
        if self.journal is not None:
            self.journal.append(("tx", self.name, rec))
        if self.on_send:
            self.on_send(rec)

    def take(self):
        r = self.sent
        self.sent = []
        return r


class Hardware:
    """Module level stand-ins of one world"""

    def __init__(self, world):
        self.world = world
        self.gpio_used = []       # (kind, pin)
        self.digital = {}         # pin -> 0/1 input level (1 = released)
        self.analog = {}          # pin -> value
        self.rotary = {}          # (pin, pin) -> position
        self.uarts = []
        self.usb_in = ByteIn()
        self.usb_out = ByteOut()
        self.hid_log = []
        self.hid_devices = ["hid-device"]
        self.fonts_loaded = []
        self.displays = []
        self.neopixels = []
        self.boot = []            # calls to storage / supervisor / usb functions

    def modules(self):
        hw = self
        mods = {}

        def mod(name, package=False, **attrs):
            m = types.ModuleType(name)
            if package:
                m.__path__ = []
            for k, v in attrs.items():
                setattr(m, k, v)
            mods[name] = m
            if "." in name:
                p, _, c = name.rpartition(".")
                if p in mods:
                    setattr(mods[p], c, m)
            return m

        mod("micropython", const=lambda x: x)

        mod("displayio", Group=Group, release_displays=lambda: None)
        label_mod = mod("adafruit_display_text", package=True, wrap_text_to_pixels=wrap_text_to_pixels)
        lm = mod("adafruit_display_text.label", Label=Label)
        label_mod.label = lm
        mod("adafruit_display_shapes", package=True)
        mod("adafruit_display_shapes.rect", Rect=Rect)

        mod("board", **{f"GP{i}": f"GP{i}" for i in range(29)},
            **{"LED": "LED", "SMPS_MODE": "SMPS_MODE", "VOLTAGE_MONITOR": "VOLTAGE_MONITOR",
               "VBUS_SENSE": "VBUS_SENSE", "board_id": "raspberry_pi_pico"})

        class UART:
            def __init__(self, tx, rx, *, baudrate=9600, timeout=1, **kw):
                # named like busio.UART(tx, rx)
                self.pins = (tx, rx)
                self.baudrate = baudrate
                self.timeout = timeout
                self.inp = ByteIn()
                self.out = ByteOut()
                hw.uarts.append(self)

            def read(self, n=None):
                return self.inp.read(n)

            def write(self, buf, length=None):
                return self.out.write(buf, length)

        class SPI:
            def __init__(self, clock, MOSI=None, MISO=None):
                self.locked = False

            def try_lock(self):
                self.locked = True
                return True

            def configure(self, **kw):
                pass

            def unlock(self):
                self.locked = False

        mod("busio", UART=UART, SPI=SPI)

        class FourWire:
            def __init__(self, spi, *, command=None, chip_select=None, reset=None, **kw):
                pass

        mod("fourwire", FourWire=FourWire)

        class ST7789(Tft):
            def __init__(self, bus, width=240, height=240, rowstart=0, rotation=0, **kw):
                super().__init__()
                self.width = width
                self.height = height
                hw.displays.append(self)

        class NeoPixel(LedStrip):
            def __init__(self, pin, n, **kw):
                super().__init__(n)
                self.pin = pin
                hw.neopixels.append(self)

        mod("adafruit_misc", package=True)
        mod("adafruit_misc.adafruit_st7789", ST7789=ST7789)
        mod("adafruit_misc.neopixel", NeoPixel=NeoPixel)

        def load_font(path):
            hw.fonts_loaded.append(path)
            return Font(path)

        bf = mod("adafruit_bitmap_font", package=True)
        bf.bitmap_font = mod("adafruit_bitmap_font.bitmap_font", load_font=load_font)

        class DigitalInOut:
            def __init__(self, pin):
                hw.gpio_used.append(("digital", pin))
                self.pin = pin
                self.direction = None
                self.pull = None

            @property
            def value(self):
                # a switch connects the pin to ground; otherwise only the pull resistor defines the level
                if self.direction != "input":
                    raise HardwareFault("pin %s is not an input" % self.pin)
                return bool(hw.digital.get(self.pin, 1)) and self.pull == "up"

        class Direction:
            INPUT = "input"
            OUTPUT = "output"

        class Pull:
            UP = "up"
            DOWN = "down"

        mod("digitalio", DigitalInOut=DigitalInOut, Direction=Direction, Pull=Pull)

        class AnalogIn:
            def __init__(self, pin):
                hw.gpio_used.append(("analog", pin))
                self.pin = pin

            @property
            def value(self):
                return hw.analog.get(self.pin, 0)

        mod("analogio", AnalogIn=AnalogIn)

        class IncrementalEncoder:
            def __init__(self, a, b, divisor=4):
                hw.gpio_used.append(("rotary", a))
                hw.gpio_used.append(("rotary", b))
                self.pins = (a, b)
                self.divisor = divisor

            @property
            def position(self):
                return hw.rotary.get(self.pins, 0)

        mod("rotaryio", IncrementalEncoder=IncrementalEncoder)

        mod("usb_midi", ports=[self.usb_in, self.usb_out],
            set_names=lambda **kw: hw.boot.append(("midi_names", tuple(sorted(kw.items())))),
            disable=lambda: hw.boot.append(("midi_disable",)),
            enable=lambda: hw.boot.append(("midi_enable",)))
        mod("usb_hid", devices=self.hid_devices,
            disable=lambda: hw.boot.append(("hid_disable",)),
            enable=lambda *a: hw.boot.append(("hid_enable",)))
        mod("usb_cdc", disable=lambda: hw.boot.append(("cdc_disable",)),
            enable=lambda **kw: hw.boot.append(("cdc_enable",)))

        class Keyboard:
            def __init__(self, devices, timeout=None):
                if devices is not hw.hid_devices:
                    raise HardwareFault("Keyboard needs usb_hid.devices")
                if getattr(hw, "hid_refuse", False):
                    raise OSError("USB busy")
                self.pressed = set()

            def press(self, *codes):
                for c in codes:
                    if not isinstance(c, int):
                        raise HardwareFault(f"invalid key code {c!r}")
                    self.pressed.add(c)
                hw.hid_log.append(("press",) + tuple(codes))

            def release(self, *codes):
                for c in codes:
                    self.pressed.discard(c)
                hw.hid_log.append(("release",) + tuple(codes))

            def release_all(self):
                self.pressed.clear()
                hw.hid_log.append(("release_all",))

            def send(self, *codes):
                for c in codes:
                    if not isinstance(c, int):
                        raise HardwareFault(f"invalid key code {c!r}")
                hw.hid_log.append(("send",) + tuple(codes))

        mod("adafruit_hid.keyboard", Keyboard=Keyboard)

        mod("storage",
            remount=lambda *a, **kw: hw.boot.append(("remount", a, tuple(sorted(kw.items())))),
            disable_usb_drive=lambda: hw.boot.append(("disable_usb_drive",)),
            enable_usb_drive=lambda: hw.boot.append(("enable_usb_drive",)),
            getmount=lambda p: types.SimpleNamespace(label="", readonly=False))

        class _Sup(types.ModuleType):
            pass

        sup = _Sup("supervisor")
        sup.runtime = types.SimpleNamespace(autoreload=True, usb_connected=True)
        sup.set_usb_identification = lambda *a, **kw: hw.boot.append(("usb_id", a, tuple(sorted(kw.items()))))
        sup.reload = lambda: hw.boot.append(("reload",))
        sup.disable_autoreload = lambda: hw.boot.append(("disable_autoreload",))
        mods["supervisor"] = sup

        class MidiBridgeWrapper:
            def __init__(self, midi, temp_file_path=None, **kw):
                self.midi = midi
                hw.boot.append(("bridge", temp_file_path))

            def send(self, m):
                return self.midi.send(m)

            def receive(self):
                return self.midi.receive()

            def error(self, e):
                raise e

        mod("pymidibridge", package=True)
        mod("pymidibridge.MidiBridgeWrapper", MidiBridgeWrapper=MidiBridgeWrapper)
        return mods


class ByteIn:
    """Byte oriented MIDI input (usb_midi port or UART)"""

    def __init__(self):
        self.buf = bytearray()
        self.reads = 0

    def feed(self, data):
        self.buf.extend(bytes(data))

    def read(self, n=None):
        self.reads += 1
        if self.reads > 200000:
            raise HardwareFault("MIDI input read too often")
        n = len(self.buf) if n is None else n
        r = bytes(self.buf[:n])
        del self.buf[:n]
        return r


class ByteOut:
    def __init__(self):
        self.data = bytearray()

    def write(self, packet, length=None):
        length = len(packet) if length is None else length
        self.data.extend(bytes(packet[:length]))
        return length
