"""On/off parameter actions: case generator, device and reference model shared by C11 and C13."""
import struct
from hypothesis import strategies as st
from .world import build, KEMPER
from .app import App, expect, label, root, splash_callback
from . import gens

COMPARE = {
    "EQUAL": lambda v, r: v == r,
    "GREATER_EQUAL": lambda v, r: v >= r,
    "GREATER": lambda v, r: v > r,
    "LESS_EQUAL": lambda v, r: v <= r,
    "LESS": lambda v, r: v < r,
}
PAGE = 0x21
GLOBALS = {"displayDimFactorOn": 1, "displayDimFactorOff": 0.2, "ledBrightnessOn": 0.3, "ledBrightnessOff": 0.02}


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def trunc(color, factor):
    return tuple(int(c * factor) for c in color)


dyadic = st.sampled_from([0, 0.125, 0.25, 0.5, 0.75, 1])


@st.composite
def action_spec(draw, display=False):
    kind = draw(st.sampled_from(["cc", "cc", "nrpn", "nrpn", "list"]))
    top = 127 if kind != "nrpn" else 16383
    small = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, top))
    s = {
        "kind": kind,
        "cmp": draw(st.sampled_from(list(COMPARE) + ["NO_STATE_CHANGE"])),
        "on": draw(small),
        "off": draw(st.one_of(small, st.just("auto"))),
        "ref": draw(st.one_of(st.none(), small)),
        "disable": draw(gens.rarely(st.just(True), False)) if kind != "list" else False,
        "response": draw(gens.rarely(st.just(False), True, 6)),
        "mode": draw(st.sampled_from(["LATCH", "LATCH", "MOMENTARY", "ENABLE", "DISABLE"])),
        "initial": draw(small),
        "internal": draw(gens.rarely(st.just(True), False)),
        "echo": draw(st.booleans()),
    }
    if kind == "list":
        s["on2"] = draw(small)
        s["off2"] = draw(st.one_of(small, st.just("auto")))
    if display:
        s["color"] = draw(gens.color)
        s["colors"] = draw(st.one_of(st.none(), st.none(), st.lists(gens.color, min_size=1, max_size=3)))
        s["text"] = draw(st.sampled_from(["", "abc", "text"]))
        s["text_off"] = draw(st.sampled_from([None, None, "off"]))
        s["dim_on"] = draw(st.one_of(st.none(), st.just("off"), dyadic))
        s["dim_off"] = draw(st.one_of(st.none(), st.just("on"), dyadic))
        s["led_on"] = draw(st.one_of(st.none(), st.just("off"), dyadic))
        s["led_off"] = draw(st.one_of(st.none(), st.just("on"), dyadic))
        s["pixels"] = draw(st.integers(0, 4))
        s["use_leds"] = draw(gens.rarely(st.just(False), True))
        s["label"] = draw(gens.rarely(st.just(False), True))
    return s


def cases(display=False):
    @st.composite
    def f(draw):
        actions = draw(st.lists(action_spec(display), min_size=1, max_size=3))
        ops = []
        for _ in range(draw(st.integers(3, 16))):
            i = draw(st.integers(0, len(actions) - 1))
            k = draw(st.integers(0, 19))
            a = actions[i]
            near = [v for v in (a["on"], a["off"], a["ref"]) if isinstance(v, int)]
            near = sorted({max(0, min(127, x + d)) if a["kind"] != "nrpn" else max(0, min(16383, x + d)) for x in near for d in (-1, 0, 1)})
            if k <= 8:
                ops.append(["tap", i])
            elif k <= 15:
                ops.append(["report", i, draw(st.one_of(st.sampled_from(near), st.integers(0, 127)))])
            elif k == 16:
                ops.append(["silence"])
            elif k == 17:
                ops.append(["wait", draw(st.integers(0, 1000))])
            elif display:
                ops.append(["reset"])
        c = {"actions": actions, "ops": ops}
        if display:
            c["config"] = draw(st.dictionaries(st.sampled_from(sorted(GLOBALS)), dyadic, max_size=4))
        return c
    return f()


class Ref:
    """What one action has to show and send"""

    def __init__(self, spec, config):
        self.s = spec
        self.value = None
        self.seen = self       # nothing
        self.state = False
        self.off = [spec["off"], spec.get("off2")] if spec["kind"] == "list" else [spec["off"]]
        self.auto = [v == "auto" for v in self.off]
        self.ref = spec["ref"] if spec["ref"] is not None else spec["on"]
        self.cfg = dict(GLOBALS, **config)

    @property
    def unresolved(self):
        return any(v == "auto" for v in self.off)

    def evaluate(self):
        if self.value == self.seen and self.seen is not self:
            return
        self.seen = self.value
        if self.value is None:
            self.state = False
        elif self.s["cmp"] != "NO_STATE_CHANGE":
            self.state = COMPARE[self.s["cmp"]](self.value, self.ref)
        if not self.state and self.value is not None:
            self.off = [self.value if a else v for a, v in zip(self.auto, self.off)]

    def report(self, v):
        self.value = v
        self.evaluate()

    def reset(self):
        self.seen = self
        self.state = False
        self.evaluate()

    def set_state(self, state):
        """Returns the values sent, or None if nothing is sent"""
        if state == self.state:
            return None
        self.state = state
        if self.s["kind"] == "list":
            values = [self.s["on"], self.s["on2"]] if state else list(self.off)
            if self.unresolved and not state:
                self.again()
            return values
        v = self.s["on"] if state else self.off[0]
        if v == "auto":
            self.again()
            return None
        return [v]

    def again(self):
        """Nothing has been sent, so the value of the device is shown again"""
        if self.s["response"]:
            self.seen = self
            self.evaluate()

    # ---------------------------------------------------------------- displays
    @property
    def lit(self):
        return self.state and (self.s["response"] or self.s["internal"])

    @property
    def color(self):
        cs = self.s["colors"]
        return tuple(cs[(self.value or 0) % len(cs)] if cs else self.s["color"])

    def _opt(self, own, on_key, off_key, default):
        v = self.s[own]
        if v == "on":
            return self.cfg[on_key]
        if v == "off":
            return self.cfg[off_key]
        return self.cfg[default] if v is None else v

    def led(self):
        b = self._opt("led_on", "ledBrightnessOn", "ledBrightnessOff", "ledBrightnessOn") if self.lit else \
            self._opt("led_off", "ledBrightnessOn", "ledBrightnessOff", "ledBrightnessOff")
        return trunc(self.color, b)

    def back(self):
        d = self._opt("dim_on", "displayDimFactorOn", "displayDimFactorOff", "displayDimFactorOn") if self.lit else \
            self._opt("dim_off", "displayDimFactorOn", "displayDimFactorOff", "displayDimFactorOff")
        return trunc(self.color, d)

    def text(self):
        if not self.s["text"]:
            return "initial"
        has_feedback = self.s["response"] or self.s["internal"]
        if self.state or not has_feedback:
            return self.s["text"]
        return self.s["text_off"] or self.s["text"]


class Rig:
    """The actions of a case on a controller with a device"""

    def __init__(self, w, case, display=False):
        self.w = w
        self.case = case
        specs = case["actions"]
        self.refs = [Ref(s, case.get("config", {})) for s in specs]
        client = w.get("controller.client", "ClientParameterMapping")
        PB = w.get("controller.actions", "PushButtonAction")
        B = w.get("controller.callbacks", "BinaryParameterCallback")
        self.labels = []
        self.actions = []
        inputs = []
        self.device = {}
        self.alive = True
        pix = 0
        for i, s in enumerate(specs):
            kw = {}
            if s["kind"] == "nrpn":
                self.device[(PAGE, i)] = s["initial"]
                kw["set"] = build(("sx", KEMPER, (2, 0x7f, 1, 0, PAGE, i)))
                if s["response"]:
                    kw["request"] = build(("sx", KEMPER, (2, 0x7f, 0x41, 0, PAGE, i)))
                    kw["response"] = build(("sx", KEMPER, (2, 0x7f, 1, 0, PAGE, i)))
            elif s["kind"] == "cc":
                kw["set"] = build(("cc", 40 + i, 0))
                if s["response"]:
                    kw["response"] = build(("cc", 40 + i, 0))
            else:
                kw["set"] = [build(("cc", 40 + i, 0)), build(("cc", 50 + i, 0))]
                if s["response"]:
                    kw["response"] = build(("cc", 40 + i, 0))
            m = client.get(name="p%d" % i, **kw)
            dis = None
            if s["disable"]:
                dis = client.get(name="d%d" % i, set=build(("cc", 60 + i, 0)) if s["kind"] == "cc" else build(("sx", KEMPER, (2, 0x7f, 1, 0, PAGE, 50 + i))))
            args = dict(
                mapping=m, mapping_disable=dis,
                value_enable=[s["on"], s["on2"]] if s["kind"] == "list" else s["on"],
                value_disable=[s["off"], s["off2"]] if s["kind"] == "list" else s["off"],
                reference_value=s["ref"], comparison_mode=getattr(B, s["cmp"]), use_internal_state=s["internal"])
            acfg = {"mode": getattr(PB, s["mode"])}
            if display:
                args.update(text=s["text"], text_disabled=s["text_off"], color=tuple(s["color"]), display_dim_factor_on=s["dim_on"], display_dim_factor_off=s["dim_off"],
                            led_brightness_on=s["led_on"], led_brightness_off=s["led_off"])
                if s["colors"]:
                    args["color_callback"] = lambda action, value, cs=s["colors"]: tuple(cs[(value or 0) % len(cs)])
                lab = label(w, y=40 * i, text="initial", back=(10, 20, 30)) if s["label"] else None
                self.labels.append(lab)
                acfg["display"] = lab
                acfg["useSwitchLeds"] = s["use_leds"]
                n = s["pixels"]
            else:
                n = 0
            acfg["callback"] = B(**args)
            a = PB(acfg)
            self.actions.append(a)
            inputs.append({"actions": [a], "pixels": range(pix, pix + n)})
            pix += n
        self.pix = pix
        shown = [l for l in self.labels if l]
        self.app = App(w, inputs, config=dict(case.get("config", {})), splash=splash_callback(w, root(w, shown)) if shown else None)
        self.requests = 0
        self.app.port.on_send = self._on_send

    def _on_send(self, r):
        if r[0] != "sx":
            return
        d = r[2]
        if d[2] == 0x41:
            self.requests += 1
            if self.alive and (d[4], d[5]) in self.device:
                self.app.port.push(("sx", KEMPER, (0, 0, 1, 0, d[4], d[5], self.device[(d[4], d[5])] // 128, self.device[(d[4], d[5])] % 128)))
        elif d[2] == 1 and self.alive and (d[4], d[5]) in self.device:
            self.device[(d[4], d[5])] = d[6] * 128 + d[7]

    def start(self):
        self.app.init()
        self.app.settle()
        for i, (r, s) in enumerate(zip(self.refs, self.case["actions"])):
            r.evaluate()
            if s["kind"] == "nrpn" and s["response"]:
                r.report(s["initial"])

    def set_msgs(self, i, values, state):
        s = self.case["actions"][i]
        if s["kind"] == "list":
            return [("cc", 40 + i, values[0]), ("cc", 50 + i, values[1])]
        other = s["disable"] and not state
        if s["kind"] == "cc":
            return [("cc", (60 if other else 40) + i, values[0])]
        return [("sx", KEMPER, (2, 0x7f, 1, 0, PAGE, (50 if other else 0) + i, values[0] // 128, values[0] % 128))]

    def sets_sent(self):
        return [m for m in self.app.sent() if not (m[0] == "sx" and m[2][2] == 0x41)]

    def do(self, op):
        """Performs one operation; returns (expected set messages or None if undefined, sent ones)"""
        app = self.app
        app.sent()
        exp = []
        k = op[0]
        if k == "tap":
            i = op[1]
            s = self.case["actions"][i]
            r = self.refs[i]
            undefined = False
            got = []
            steps = {"LATCH": [not r.state, None], "MOMENTARY": [True, False], "ENABLE": [True, None], "DISABLE": [False, None]}[s["mode"]]
            for pushed, t in zip((True, False), steps):
                (app.press if pushed else app.release)(i)
                if t is not None:
                    undefined = undefined or (s["kind"] == "list" and r.unresolved)
                    v = r.set_state(t)
                    if v is not None:
                        exp += self.set_msgs(i, v, t) if not undefined else []
                        if s["kind"] == "cc" and s["echo"] and s["response"] and not (s["disable"] and not t):
                            app.feed(("cc", 40 + i, v[0]))
                            r.report(v[0])
                app.settle()
                if s["kind"] == "nrpn" and s["response"] and self.alive:
                    r.report(self.device[(PAGE, i)])
                got += self.sets_sent()
            return (None if undefined else exp), got
        if k == "report":
            _, i, v = op
            s = self.case["actions"][i]
            if s["kind"] == "nrpn":
                self.device[(PAGE, i)] = v
                app.settle()
                if s["response"] and self.alive:
                    self.refs[i].report(v)
            else:
                app.feed(("cc", 40 + i, min(v, 127)))
                if s["response"]:
                    self.refs[i].report(min(v, 127))
        elif k == "silence":
            self.alive = not self.alive
            app.settle(3800)
            for i, (r, s) in enumerate(zip(self.refs, self.case["actions"])):
                if s["kind"] == "nrpn" and s["response"]:
                    r.report(self.device[(PAGE, i)] if self.alive else None)
        elif k == "wait":
            app.run(op[1])
        elif k == "reset":
            app.c.reset_actions()
            for r in self.refs:
                r.reset()
        return exp, self.sets_sent()
