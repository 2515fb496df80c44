from hypothesis import strategies as st
from ..kit import Test
from ..world import World, nrpn_value
from ..app import App, expect, label, root
from ..kemperdev import Device, SLOTS, SLOT_PAGE, FREEZE, TUNER
from .. import gens

ID = "C22"
SCALE = 2
RULE = ("The same history of presses and device changes runs twice, once with and once without tuner episodes in between (started and ended by the device or by a switch, with parameter changes, notes and presses while tuning, and presses which overlap the start or the end); "
        "LEDs, labels, screen and all messages are compared after each step, and during the episode presses may only end tuner mode. "
        "Non-trivial: at least one episode in which a switch was pressed or a parameter changed, and at least one message sent after an episode.")
NOTE = "LEDs which no enabled action uses are left undefined. States which exist in the controller only (actions without feedback from the device) are reset by tuner mode on purpose and are not part of the comparison."
ASSUMPTIONS = ["LEDs have to be dark when tuner mode starts; parameter changes while tuning may redraw them (documented nowhere, done by the code on purpose for the strobe-less case)."]

CHANGES = st.one_of(
    st.tuples(st.just("type"), st.integers(0, 7), st.sampled_from([0, 1, 17, 33, 50, 57, 65, 81, 97, 113, 129, 145, 177])),
    st.tuples(st.just("state"), st.integers(0, 7), st.integers(0, 1)),
    st.tuples(st.just("freeze"), st.integers(0, 7), st.integers(0, 1)),
    st.tuples(st.just("rig"), st.integers(0, 624)),
).map(list)


def cases():
    @st.composite
    def f(draw):
        n = 0
        switches = []
        for i in range(draw(st.integers(1, 4))):
            acts = []
            for _ in range(draw(st.integers(0, 3))):
                k = draw(st.sampled_from(["effect", "effect", "freeze", "rig", "custom", "rotate", "paged"]))
                a = {"k": k, "n": n, "slot": draw(st.integers(0, 7)), "mode": draw(st.sampled_from(["LATCH", "HOLD_MOMENTARY", "MOMENTARY"])), "label": draw(st.booleans()),
                     "color": draw(gens.color), "page": draw(st.integers(0, 1)), "leds": draw(gens.rarely(st.just(False), True))}
                if k == "rig":
                    a["rig"] = draw(st.integers(1, 5))
                    a["bank"] = draw(st.one_of(st.none(), st.integers(1, 125)))
                    a["target"] = draw(st.booleans())
                n += 1
                acts.append(a)
            switches.append({"actions": acts, "pixels": draw(st.integers(0, 4)), "hold": draw(gens.rarely(st.booleans(), False))})
        ops = []
        nsw = len(switches)

        def inner():
            return draw(st.lists(st.one_of(CHANGES, CHANGES, st.just(["note"]), st.just(["wait"])), max_size=4))

        for _ in range(draw(st.integers(2, 8))):
            k = draw(st.integers(0, 9))
            if k < 3:
                ops.append(["tap", draw(st.integers(0, nsw - 1))])
            elif k < 4:
                ops.append(["hold", draw(st.integers(0, nsw - 1))])
            elif k < 6:
                ops.append(draw(CHANGES))
            else:
                ops.append(["tuner", draw(st.sampled_from(["device", "tap", "holdaction", "overlap"])), inner(),
                            draw(st.sampled_from(["device", "press", "press", "presses", "overlap", "lost"])), draw(st.integers(0, nsw - 1)), draw(st.integers(0, nsw - 1))])
        return {"switches": switches, "ops": ops, "process": draw(gens.rarely(st.just(True), False, 4)), "strobe": draw(gens.rarely(st.just(True), False, 4)), "rig": draw(st.integers(0, 624)), "tuner_mode": draw(st.sampled_from(["LATCH", "HOLD_MOMENTARY"])),
                "pedal": draw(st.booleans())}
    return f()


class Session:
    def __init__(self, w, case):
        self.w = w
        self.case = case
        EFFECT = w.get("clients.kemper.actions.effect_state", "EFFECT_STATE")
        RIG = w.imp("clients.kemper.actions.rig_select")
        CUSTOM = w.get("clients.local.actions.custom", "CUSTOM_MESSAGE")
        ROT = w.get("clients.local.actions.rotate", "ROTATING_MESSAGES")
        BIN = w.get("clients.local.actions.binary_switch", "BINARY_SWITCH")
        FRZ = w.get("clients.kemper.mappings.freeze", "MAPPING_FREEZE")
        Pager = w.get("clients.local.actions.pager", "PagerAction")
        TUN = w.get("clients.kemper.actions.tuner", "TUNER_MODE")
        PB = w.get("controller.actions", "PushButtonAction")
        kemper = w.imp("clients.kemper")
        self.labels = []
        mode = lambda m: getattr(PB, m)

        def lab(a):
            if not a["label"]:
                return None
            self.labels.append(label(w, y=20 * len(self.labels), h=18, back=(1, 2, 3)))
            return self.labels[-1]

        pager = Pager(pages=[{"id": 1, "color": (10, 200, 30), "text": "one"}, {"id": 2, "color": (70, 20, 130), "text": "two"}])
        inputs = []
        px = 0
        self.driven = []
        for s in case["switches"]:
            acts = []
            for a in s["actions"]:
                col = tuple(a["color"])
                kw = {"display": lab(a), "use_leds": a["leds"]}
                if a["k"] == "effect":
                    acts.append(EFFECT(a["slot"], mode=mode(a["mode"]), **kw))
                elif a["k"] == "freeze":
                    acts.append(BIN(FRZ(a["slot"]), mode=mode(a["mode"]), color=col, text="f%d" % a["slot"], **kw))
                elif a["k"] == "rig":
                    kw["display_mode"] = RIG.RIG_SELECT_DISPLAY_TARGET_RIG if a["target"] else RIG.RIG_SELECT_DISPLAY_CURRENT_RIG
                    acts.append(RIG.RIG_SELECT(a["rig"], bank=a["bank"], **kw))
                elif a["k"] == "custom":
                    acts.append(CUSTOM([0xb1, a["n"], 5], message_release=[0xb1, a["n"], 0], text="c%d" % a["n"], color=col, **kw))
                elif a["k"] == "rotate":
                    acts.append(ROT(messages=[[0xb2, a["n"], x] for x in range(3)], led_colors=[col, (1, 200, 2), (90, 0, 90)], texts=["a", "b", "c"], **kw))
                else:
                    acts.append(CUSTOM([0xb3, a["n"], a["page"]], text="p%d" % a["page"], color=col, id=a["page"] + 1, enable_callback=pager.enable_callback, **kw))
            d = {"actions": acts, "pixels": list(range(px, px + s["pixels"]))}
            if s["hold"]:
                d["actionsHold"] = [CUSTOM([0xb4, 1, 1], use_leds=False)]
            if any(a["leds"] and a["k"] != "paged" for a in s["actions"]):
                self.driven += d["pixels"]
            px += s["pixels"]
            inputs.append(d)
        self.driven += [px, px + 1, px + 2, px + 3]
        inputs.append({"actions": [pager], "pixels": [px, px + 1]})
        self.tuner_tap = len(inputs)
        inputs.append({"actions": [TUN(mode=mode(case["tuner_mode"]))], "pixels": [px + 2]})
        self.tuner_hold = len(inputs)
        inputs.append({"actions": [CUSTOM([0xb5, 1, 1])], "actionsHold": [TUN(mode=mode(case["tuner_mode"]), use_leds=False)], "pixels": [px + 3]})
        if case["pedal"]:
            inputs.append({"kind": "pot", "actions": []})
        name = label(w, y=200, h=30, callback=kemper.KemperRigNameCallback(show_name=True, show_rig_id=True))
        self.labels.append(name)
        splash = kemper.TunerDisplayCallback(splash_default=root(w, self.labels), strobe=case["strobe"], process_overridden_actions=case["process"])
        self.app = App(w, inputs, splash=splash, protocol=kemper.KemperBidirectionalProtocol(30))
        params = {(0x7d, x): 0 for x in FREEZE.values()}
        self.dev = Device(self.app, rig=case["rig"], params=params)
        self.app.init()
        self.advance(700)
        self.dev.report_rig()
        self.advance(700)
        self.default = self.app.display.tft.current

    def advance(self, ms):
        end = self.w.clock.ms + ms
        while self.w.clock.ms < end:
            self.dev.tick()
            self.app.tick()

    def change(self, op):
        d = self.dev
        if op[0] == "type":
            d.set(SLOT_PAGE[SLOTS[op[1]]], 0, op[2])
        elif op[0] == "state":
            d.set(SLOT_PAGE[SLOTS[op[1]]], 3, op[2])
        elif op[0] == "freeze":
            d.set(0x7d, FREEZE[SLOTS[op[1]]], op[2])
        elif op[0] == "rig":
            d.load(op[1])
        elif op[0] == "note":
            d.out(nrpn_value(0x7d, 0x54, 61), nrpn_value(0x7c, 0x0f, 9000))
        self.advance(300 if op[0] == "wait" else 30)

    def hold(self, i, ms):
        self.app.models[i].pushed = True
        self.advance(ms)
        self.app.models[i].pushed = False
        self.advance(20)

    def tap(self, i):
        self.hold(i, 20)

    def took(self):
        """Messages sent, without requests and beacons"""
        return [r for r in self.app.sent() if r[0] != "sx" or r[2][2] == 1]

    def view(self):
        # LEDs nobody uses keep what was there before, and stay dark after tuner mode
        leds = list(self.app.leds())
        return {"leds": [leds[p] for p in self.driven], "screen": self.app.display.tft.current is self.default,
                "labels": [(l.text, l.back_color, l.text_color) for l in self.labels]}


def play(case, tuning, rec):
    """Runs the history, returns what was visible and sent after each step"""
    out = []
    stats = [0, 0]
    with World() as w:
        s = Session(w, case)
        out.append((s.took(), s.view()))
        tap_tuner = ("cc", 31, 1)
        for op in case["ops"]:
            s.took()
            if op[0] == "tap":
                s.tap(op[1])
            elif op[0] == "hold":
                s.hold(op[1], 750)
            elif op[0] != "tuner":
                s.change(op)
            if op[0] != "tuner":
                s.advance(1300)
                out.append((s.took(), s.view()))
                if tuning:
                    stats[1] += bool(stats[0] and out[-1][0])
                continue

            _, start, changes, end, i, j = op
            before = []
            down = False
            # ---- start
            if start == "overlap":
                # pressed before, released while tuning (or, in the other run, while not tuning)
                if case["switches"][i]["hold"]:
                    start = "device"
                else:
                    s.app.models[i].pushed = True
                    s.advance(20)
                    down = True
            if tuning:
                if start in ("device", "overlap"):
                    s.dev.set(*TUNER, 1)
                    s.app.tick()
                    if not case["process"]:
                        expect(all(tuple(x) == (0, 0, 0) for x in s.app.leds()), lambda: f"LEDs {s.app.leds()} when tuner mode starts, expected them to be dark")
                    s.advance(20)
                elif start == "tap":
                    s.tap(s.tuner_tap)
                    got = s.took()
                    expect(got == [tap_tuner], lambda: f"tuner switch sent {got}")
                else:
                    s.hold(s.tuner_hold, 700)
                    got = s.took()
                    expect(got[:1] == [tap_tuner] and len(got) == 1, lambda: f"holding the tuner switch sent {got}")
                expect(s.dev.params[TUNER] == 1, "device is not in tuner mode")
                expect(s.app.display.tft.current is not s.default, "tuner screen is not shown in tuner mode")
            if down:
                s.app.models[i].pushed = False
                s.advance(20)
            before += s.took()
            if tuning:
                expect(s.dev.params[TUNER] == 1, "releasing a switch which was pressed before tuner mode has ended it")
            # ---- tuning
            for c in changes:
                s.change(c)
            late = []
            if case["process"]:
                s.advance(700)      # values which are not covered by the session are polled
            if tuning:
                got = s.took()
                expect(not got, lambda: f"{got} sent in tuner mode without a press")
                expect(s.app.display.tft.current is not s.default, "tuner screen is not shown any more in tuner mode")
            stats[0] += bool(changes) or end != "device"
            # ---- end
            with_presses = []
            if end in ("press", "presses"):
                with_presses = [i, j] if end == "presses" and i != j and not case["process"] else [i]
                if tuning or case["process"]:
                    for x in with_presses:
                        s.app.models[x].pushed = True
                        s.advance(20)
                    if tuning:
                        if not case["process"]:
                            got = s.took()
                            expect(not got, lambda: f"pressing a switch in tuner mode sent {got}")
                        expect(s.dev.params[TUNER] == 1, "tuner mode ended by pressing already, before the release")
                    for x in with_presses:
                        s.app.models[x].pushed = False
                        s.advance(20)
                    late = s.took()
                    if tuning:
                        n = late.count(("cc", 31, 0))
                        expect(n == 1, lambda: f"{len(with_presses)} presses in tuner mode sent the tuner off message {n} times: {late}")
                        late = [r for r in late if r != ("cc", 31, 0)]
                        if not case["process"]:
                            expect(not late, lambda: f"pressing a switch in tuner mode sent {late}")
            elif end == "overlap" and not case["process"]:
                # pressed while tuning, ended by the device, released afterwards
                if tuning:
                    s.app.models[i].pushed = True
                    s.advance(20)
                    s.dev.set(*TUNER, 0)
                    s.advance(20)
                    s.app.models[i].pushed = False
                    s.advance(20)
                    got = s.took()
                    expect(not got, lambda: f"a switch pressed in tuner mode and released after it sent {got}")
            elif end == "lost":
                # the device goes away without leaving tuner mode, and comes back without it
                s.dev.mute = True
                s.dev.session = False
                s.dev.params[TUNER] = 0
                s.advance(9000)
                s.dev.mute = False
                s.advance(7000)
            elif tuning:
                s.dev.set(*TUNER, 0)
            if tuning:
                s.advance(20)
                expect(s.dev.params[TUNER] == 0, "device is still in tuner mode")
                expect(s.app.display.tft.current is s.default, "default screen is not shown after tuner mode")
            s.advance(1300)
            out.append((sorted(map(repr, before + late)), s.view()))
            got = s.took()
            expect(not got, lambda: f"{got} sent after tuner mode" if tuning else f"{got} sent without a press")
    if tuning:
        rec.nontrivial_if(stats[0] and stats[1])
        rec.label("episodes with activity", stats[0])
    return out


def run(case, rec):
    with_tuner = play(case, True, rec)
    without = play(case, False, rec)
    steps = ["start"] + case["ops"]
    for n, (a, b) in enumerate(zip(with_tuner, without)):
        expect(a[0] == b[0], lambda: f"step {n} {steps[n]} sent {a[0]} after tuner mode, {b[0]} without")
        # brightnesses are kept as single precision numbers, which can be seen in the last digit of the LEDs
        same = len(a[1]["leds"]) == len(b[1]["leds"]) and all(abs(x - y) <= 1 for p, q in zip(a[1]["leds"], b[1]["leds"]) for x, y in zip(p, q))
        for k in a[1]:
            if k == "leds" and same:
                continue
            expect(a[1][k] == b[1][k], lambda: f"{k} after step {n} {steps[n]} with tuner mode: {a[1][k]}, without: {b[1][k]}")


TESTS = [Test("episodes", cases, run, quick=1200, thorough=30000)]
