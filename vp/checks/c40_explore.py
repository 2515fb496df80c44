import contextlib
import io
import types

from hypothesis import strategies as st
from ..kit import Test
from ..app import expect, flat
from ..shipped import Machine
from ..world import World
from .. import fakes, gens

ID = "C40"
RULE = ("Random boards (any number of GP pins, some of which cannot be used as switches, and other pins), numbers of LEDs per switch and columns, with and without display, and the firmware's own start in explore mode; random overlapping presses. "
        "LEDs, port labels and their colours, the LED report and the serial output are compared with a reference after each press. Non-trivial: presses went in both directions and around the end.")

WHITE, BLUE, DARK, LIGHT, RED = (255, 255, 255), (0, 0, 12), (0, 0, 120), (100, 100, 255), (255, 0, 0)


def ops():
    return st.lists(st.tuples(st.sampled_from(["tap", "tap", "tap", "hold", "up"]), st.integers(0, 40)), min_size=1, max_size=25)


def cases():
    pins = st.dictionaries(st.integers(0, 40).map(str), gens.rarely(st.just("bad"), "ok", 5), min_size=1, max_size=24).filter(lambda d: "ok" in d.values())
    return st.fixed_dictionaries({"pins": pins, "others": st.lists(st.sampled_from(["LED", "SMPS_MODE", "VBUS_SENSE", "A0", "board_id"]), unique=True), "leds": st.sampled_from([3, 3, 1, 2, 4]), "columns": st.sampled_from([5, 5, 1, 3, 8]), "ui": gens.rarely(st.just(False), True), "ops": ops()})


class Model:
    def __init__(self, names, per):
        self.names, self.per = names, per
        self.index = -1
        self.latest = None
        self.pressed = []

    def press(self, i):
        self.index += 1 if i % 2 == 0 else -1
        if self.index >= len(self.names):
            self.index = 0
        if self.index < 0:
            self.index = len(self.names) - 1
        if self.names[i] not in self.pressed:
            self.pressed.append(self.names[i])
        self.latest = self.names[i]

    def report(self):
        return f"Pixels: ({', '.join(str(self.index * self.per + j) for j in range(self.per))}) of {len(self.names) * self.per}"

    def check(self, leds, screen, op):
        if self.latest is None:
            return
        for i in range(len(self.names)):
            for j in range(self.per):
                want = WHITE if i == self.index else BLUE
                expect(tuple(leds[i * self.per + j]) == want, lambda: f"LED {i * self.per + j} is {leds[i * self.per + j]} after {op}, expected {want} (group {self.index} of {len(self.names)})")
        if screen is None:
            return
        shown, back = {}, None
        for it, x, y in flat(screen):
            if isinstance(it, fakes.Rect):
                back = it.fill
            elif isinstance(it, fakes.Label):
                expect(it.text not in shown or not it.text, lambda: f"{it.text} is shown twice")
                shown[it.text] = back
        expect(self.report() in shown, lambda: f"{self.report()!r} is not shown after {op}: {list(shown)}")
        for n in self.names:
            expect(n in shown, lambda: f"port {n} is not shown")
            want = RED if n == self.latest else LIGHT if n in self.pressed else DARK
            expect(tuple(shown[n]) == want, lambda: f"port {n} is marked {shown[n]} after {op}, expected {want}")


def run(case, rec):
    with World() as w:
        out = io.StringIO()
        board = types.SimpleNamespace(**{"GP" + n: ("pin", n) for n in case["pins"]}, **{o: ("pin", o) for o in case["others"]})
        names = [n for n in sorted("GP" + n for n in case["pins"]) if case["pins"][n[2:]] == "ok"]
        models = {}

        class Factory:
            def create_switch(self, port):
                if case["pins"].get(port[1]) != "ok":
                    raise ValueError("pin in use")
                models["GP" + port[1]] = fakes.Switch()
                return models["GP" + port[1]]

        display = fakes.DisplayDriver()
        ui = w.get("ui.UiController", "UiController")(display_driver=display, font_loader=fakes.FontLoader()) if case["ui"] else None
        led = fakes.LedDriver()
        with contextlib.redirect_stdout(out):
            c = w.get("controller.explore", "ExploreModeController")(board=board, switch_factory=Factory(), led_driver=led, ui=ui, num_pixels_per_switch=case["leds"], num_port_columns=case["columns"])
            c.init()
            expect(sorted(models) == names and all(m.inits == 1 for m in models.values()), lambda: f"ports {sorted(models)} opened, expected {names}")
            ref = Model(names, case["leds"])
            ups = wraps = 0

            def tick():
                w.clock.advance(10)
                expect(c.tick() is True, "the loop ended")

            tick()
            for kind, i in case["ops"]:
                i %= len(names)
                m = models[names[i]]
                out.truncate(0)
                out.seek(0)
                lines = []
                if kind in ("tap", "hold"):
                    if not m.pushed:
                        before = ref.index
                        ref.press(i)
                        ups += i % 2
                        wraps += before >= 0 and abs(ref.index - before) != 1
                        lines = [f"board.{names[i]} {ref.report()}"]
                    m.pushed = True
                    tick()
                    tick()
                if kind in ("tap", "up"):
                    m.pushed = False
                    tick()
                got = [line.strip() for line in out.getvalue().splitlines() if line.strip()]
                expect(got == lines, lambda: f"{[kind, i]} printed {got}, expected {lines}")
                ref.check(led.leds.snapshot(), display.tft.current if ui else None, [kind, i])
            rec.nontrivial_if(ups and wraps)


def boot_cases():
    return st.fixed_dictionaries({"ops": ops()})


def run_boot(case, rec):
    """The firmware started with exploreMode in config.py"""
    m = Machine(options={"exploreMode": True})

    def script(m):
        names = sorted(f"GP{i}" for i in range(29))
        ref = Model(names, 3)
        expect(m.pins("digital") == names, lambda: f"pins {m.pins('digital')} opened instead of {names}")
        yield
        for kind, i in case["ops"]:
            n = names[i % len(names)]
            if kind in ("tap", "hold"):
                if m.hw.digital.get(n, 1):
                    ref.press(i % len(names))
                m.hw.digital[n] = 0
                yield
                yield
            if kind in ("tap", "up"):
                m.hw.digital[n] = 1
                yield
                yield
            ref.check(m.leds, m.screen, [kind, i])
        rec.nontrivial_if(len(ref.pressed) > 2)

    m.run(script)


TESTS = [Test("boards", cases, run, quick=1000, thorough=10000), Test("boot", boot_cases, run_boot, quick=200, thorough=2000)]
