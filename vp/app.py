"""A complete controller in a world: real Controller, Client, inputs, UI and MIDI routing of the code
under test, on recording hardware."""
from . import fakes
from .kit import Violation
from .world import World, wire_ok, dump


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class App:
    """inputs: list of dicts {kind: switch|pot|encoder, pixels, actions, actionsHold, ...} where the
    actions have been created by the caller inside the world."""

    def __init__(self, world, inputs, config=None, protocol=None, splash=None, ui=True, width=240, height=240,
                 tick_ms=10, through_ports=None):
        self.w = world
        self.port = fakes.Port("usb")
        self.led = fakes.LedDriver()
        self.display = fakes.DisplayDriver(width, height)
        self.fonts = fakes.FontLoader()
        self.models = []
        self.tick_ms = tick_ms
        MidiRouting = world.get("controller.midi", "MidiRouting")
        MidiController = world.get("controller.midi", "MidiController")
        self.midi = MidiController(routings=[
            MidiRouting(source=self.port, target=MidiRouting.APPLICATION),
            MidiRouting(source=MidiRouting.APPLICATION, target=self.port),
        ])
        defs = []
        for i, inp in enumerate(inputs):
            kind = inp.get("kind", "switch")
            model = {"switch": fakes.Switch, "pot": fakes.Pot, "encoder": fakes.Encoder}[kind]()
            if kind == "encoder":
                model.position = inp.get("position", 0)
            if kind == "pot":
                model.value = inp.get("value", 0)
            self.models.append(model)
            assignment = {"model": model, "name": inp.get("name", str(i))}
            if inp.get("pixels") is not None:
                assignment["pixels"] = tuple(inp["pixels"])
            if "strobeOrder" in inp:
                assignment["strobeOrder"] = inp["strobeOrder"]
            d = {"assignment": assignment}
            for k in ("actions", "actionsHold", "holdTimeMillis", "holdRepeat"):
                if k in inp:
                    d[k] = inp[k]
            defs.append(d)
        UiController = world.get("ui.UiController", "UiController")
        self.ui = UiController(display_driver=self.display, font_loader=self.fonts, splash_callback=splash) if splash is not None else None
        Controller = world.get("controller.controller", "Controller")
        kw = {}
        if protocol is not None:
            kw["protocol"] = protocol
        self.c = Controller(led_driver=self.led, midi=self.midi, config=config if config is not None else {}, inputs=defs, ui=self.ui, **kw)

    def init(self):
        self.c.init()
        return self

    def tick(self, ms=None):
        self.w.clock.advance(self.tick_ms if ms is None else ms)
        self.c.tick()

    def run(self, ms):
        """Lets the main loop run for the time given"""
        end = self.w.clock.ms + ms
        while self.w.clock.ms < end:
            self.tick(min(self.tick_ms, end - self.w.clock.ms))

    def settle(self, ms=450):
        """Enough passes that at least two periodic updates happen (200 ms default interval)"""
        self.run(ms)

    def press(self, i):
        self.models[i].pushed = True
        self.tick()

    def release(self, i):
        self.models[i].pushed = False
        self.tick()

    def tap(self, i):
        self.press(i)
        self.release(i)

    def feed(self, *recs):
        self.port.push(*recs)
        while self.port.inbox:
            self.tick()

    def sent(self):
        return self.port.take()

    def leds(self):
        return self.led.leds.snapshot()

    def check_wire(self):
        for r in self.port.sent:
            expect(wire_ok(r), lambda: f"invalid MIDI message sent: {r!r}")


def label(world, w=120, h=40, x=0, y=0, back=(50, 50, 50), callback=None, **layout):
    DisplayLabel = world.get("ui.elements", "DisplayLabel")
    DisplayBounds = world.get("ui.ui", "DisplayBounds")
    lay = {"font": "/fonts/H20.pcf"}
    if back is not None:
        lay["backColor"] = back
    lay.update(layout)
    return DisplayLabel(layout=lay, bounds=DisplayBounds(x, y, w, h), callback=callback)


def text_source(world, text):
    """A label callback which always shows the result of text()"""
    Callback = world.get("controller.callbacks", "Callback")

    class Source(Callback):
        def update_label(self, label):
            label.text = text()

    return Source()


def root(world, children, w=240, h=240):
    DisplayElement = world.get("ui.ui", "DisplayElement")
    DisplayBounds = world.get("ui.ui", "DisplayBounds")
    return DisplayElement(bounds=DisplayBounds(0, 0, w, h), children=list(children))


def splash_callback(world, element):
    """A constant splash"""
    return world.get("clients.local.callbacks.splashes", "SplashesCallback")(element)


def flat(group, x=0, y=0):
    """All drawable items of a display group in drawing order with absolute positions"""
    for item in group:
        if isinstance(item, fakes.Group):
            yield from flat(item, x + item.x, y + item.y)
        else:
            yield item, x, y


def screen_texts(group):
    return [it.text for it, _, _ in flat(group) if isinstance(it, fakes.Label)]
