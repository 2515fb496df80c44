from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build, nrpn_value, nrpn_string, nrpn_request, KEMPER
from .. import fakes, gens
from ..app import App, expect, label, root, splash_callback, text_source
from ..kemperdev import Device, SLOTS, SLOT_CC, SLOT_PAGE, FREEZE

ID = "C30"
RULE = ("A table of all predefined Kemper parameters and actions with their documented controllers and addresses. Parameters: histories of setting, requesting and device answers over random subsets, with the exact messages and "
        "the exact set of changed parameters. Actions: configurations of switches, wheels and pedals on a device model; each use may send only the documented message with the documented values, and each value reported at "
        "any documented address may change only the displays of the functions at this address. "
        "Non-trivial: parameters set and answered at different addresses, or one action used and another one changed at the device.")

M = "clients.kemper.mappings."
FIXED = {"TRANSPOSE": 1, "GATE": 6, "COMP": 11, "BOOST": 16, "WAH": 21, "CHORUS": 26, "AIR": 36, "DBL_TRACKER": 41}
LOOPER = {"REC_PLAY_OVERDUB": 88, "STOP": 89, "TRIGGER": 90, "REVERSE": 91, "HALF_SPEED": 92, "CANCEL": 93, "ERASE": 94}
PEDALS = {"WAH_PEDAL": 1, "PITCH_PEDAL": 4, "VOLUME_PEDAL": 7, "DELAY_MIX_PEDAL": 68, "DELAY_FEEDBACK_PEDAL": 69, "REVERB_MIX_PEDAL": 70, "REVERB_TIME_PEDAL": 71, "VOLUME_OUTPUT_PEDAL": 73}
RIG = ("rig",)

# name -> (module, function, arguments, set, read, requestable)
PARAMS = {}
for i, s in enumerate(SLOTS):
    PARAMS["state " + s] = ("clients.kemper", "KemperMappings.EFFECT_STATE", [i], ("cc", SLOT_CC[s]), ("nrpn", SLOT_PAGE[s], 3), True)
    PARAMS["type " + s] = ("clients.kemper", "KemperMappings.EFFECT_TYPE", [i], None, ("nrpn", SLOT_PAGE[s], 0), True)
    PARAMS["mix " + s] = (M + "effects", "MAPPING_DLY_REV_MIX", [i], ("nrpn", SLOT_PAGE[s], 0x45), ("nrpn", SLOT_PAGE[s], 0x45), True)
    PARAMS["rotary " + s] = (M + "rotary", "MAPPING_ROTARY_SPEED", [i], ("nrpn", SLOT_PAGE[s], 0x1e), ("nrpn", SLOT_PAGE[s], 0x1e), True)
    if i < 8:
        PARAMS["freeze " + s] = (M + "freeze", "MAPPING_FREEZE", [i], ("nrpn", 0x7d, FREEZE[s]), ("nrpn", 0x7d, FREEZE[s]), True)
for k, n in FIXED.items():
    PARAMS["fixed " + k] = (M + "fixed_fx", "MAPPING_FIXED_" + k, [], ("nrpn", 5, n), ("nrpn", 5, n), True)
for k, n in LOOPER.items():
    PARAMS["looper " + k] = (M + "looper", "MAPPING_LOOPER_" + k, [], ("nrpn", 0x7d, n), None, False)
for k, n in PEDALS.items():
    PARAMS["pedal " + k] = (M + "pedals", "MAPPING_" + k, [], ("cc", n), None, False)
for i in range(4):
    PARAMS["button %d" % (i + 1)] = (M + "effects", "MAPPING_EFFECT_BUTTON", [i + 1], ("cc", 75 + i), None, False)
for i in range(5):
    PARAMS["rig %d" % (i + 1)] = (M + "select", "MAPPING_RIG_SELECT", [i], ("cc", 50 + i), RIG, False)
for name, module, attr, sett, read in [
    ("bank", "select", "MAPPING_BANK_SELECT", ("cc", 47), RIG), ("next bank", "bank", "MAPPING_NEXT_BANK", ("cc", 48), RIG), ("prev bank", "bank", "MAPPING_PREVIOUS_BANK", ("cc", 49), RIG),
    ("amp state", "amp", "MAPPING_AMP_STATE", ("nrpn", 10, 2), ("nrpn", 10, 2)), ("gain", "amp", "MAPPING_AMP_GAIN", ("nrpn", 10, 4), ("nrpn", 10, 4)), ("amp name", "amp", "MAPPING_AMP_NAME", None, ("str", 0x10)),
    ("cab state", "cabinet", "MAPPING_CABINET_STATE", ("nrpn", 12, 2), ("nrpn", 12, 2)), ("cab name", "cabinet", "MAPPING_CABINET_NAME", None, ("str", 0x20)),
    ("morph button", "morph", "MAPPING_MORPH_BUTTON", ("cc", 80), ("nrpn", 0, 11)), ("morph pedal", "morph", "MAPPING_MORPH_PEDAL", ("cc", 11), ("nrpn", 0, 11)),
    ("comment", "rig", "MAPPING_RIG_COMMENT", None, ("str", 4)), ("volume", "rig", "MAPPING_RIG_VOLUME", ("nrpn", 4, 1), ("nrpn", 4, 1)), ("transpose", "rig", "MAPPING_RIG_TRANSPOSE", ("nrpn", 4, 4), ("nrpn", 4, 4)),
    ("main", "system", "MAPPING_MAIN_VOLUME", ("nrpn", 0x7f, 0), ("nrpn", 0x7f, 0)), ("monitor", "system", "MAPPING_MONITOR_VOLUME", ("nrpn", 0x7f, 2), ("nrpn", 0x7f, 2)),
    ("looper vol", "system", "MAPPING_LOOPER_VOLUME", ("nrpn", 0x7f, 52), ("nrpn", 0x7f, 52)), ("space", "system", "MAPPING_SPACE_INTENSITY", ("nrpn", 0x7f, 36), ("nrpn", 0x7f, 36)),
    ("tap", "tempo", "MAPPING_TAP_TEMPO", ("cc", 30), None), ("pulse", "tempo", "MAPPING_TEMPO_DISPLAY", None, ("nrpn", 0x7c, 0)), ("bpm", "tempo_bpm", "MAPPING_TEMPO_BPM", ("nrpn", 4, 0), ("nrpn", 4, 0)),
    ("freeze all", "freeze", "MAPPING_FREEZE_ALL_GLOBAL", ("cc", 35), ("cc", 35)),
]:
    PARAMS[name] = (M + module, attr, [], sett, read, read is not None and read[0] == "nrpn" and name != "pulse")
for name, attr, sett, read in [("tuner", "TUNER_MODE_STATE", ("cc", 31), ("nrpn", 0x7f, 0x7e)), ("note", "TUNER_NOTE", None, ("nrpn", 0x7d, 0x54)), ("deviance", "TUNER_DEVIANCE", None, ("nrpn", 0x7c, 0x0f)),
                               ("rig id", "RIG_ID", None, RIG), ("date", "RIG_DATE", None, ("str", 3)), ("name", "RIG_NAME", None, ("str", 1))]:
    PARAMS[name] = ("clients.kemper", "KemperMappings." + attr, [], sett, read, False)
NAMES = sorted(PARAMS)
READS = sorted({p[4] for p in PARAMS.values() if p[4]}, key=str)


def make(w, name):
    module, attr, args = PARAMS[name][:3]
    o = w.imp(module)
    for a in attr.split("."):
        o = getattr(o, a)
    return o(*args)


def set_message(how, v):
    if how[0] == "cc":
        return ("cc", how[1], v)
    return ("sx", KEMPER, (2, 0x7f, 1, 0, how[1], how[2], v // 128, v % 128))


def answer(read, v):
    """Messages of the device and the value they report"""
    if read[0] == "nrpn":
        return [nrpn_value(read[1], read[2], v)], v
    if read[0] == "str":
        return [nrpn_string(0, read[1], "t%d" % v)], "t%d" % v
    if read[0] == "cc":
        return [("cc", read[1], v % 128)], v % 128
    return [("cc", 32, v % 625 // 128), ("pc", v % 625 % 128)], v % 625


def param_cases():
    @st.composite
    def f(draw):
        names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=12, unique=True))
        reads = [PARAMS[n][4] for n in names if PARAMS[n][4]] or READS
        ops = []
        for _ in range(draw(st.integers(2, 12))):
            k = draw(st.integers(0, 3))
            if k == 0:
                ops.append(["set", draw(st.integers(0, len(names) - 1)), draw(st.one_of(gens.v14, st.integers(0, 127)))])
            elif k == 1:
                ops.append(["request", draw(st.integers(0, len(names) - 1)), draw(gens.v14)])
            else:
                ops.append(["answer", list(draw(st.sampled_from(reads + READS if k == 2 else reads))), draw(gens.v14)])
        return {"names": names, "ops": ops}
    return f()


def run_params(case, rec):
    with World() as w:
        port = fakes.Port()
        c = w.get("controller.client", "Client")(port, {})
        maps = {n: make(w, n) for n in case["names"]}
        told = []

        class L:
            def __init__(self, n):
                self.n = n

            def parameter_changed(self, mapping):
                told.append(self.n)

            def request_terminated(self, mapping):
                pass

        # registration makes the client listen to unsolicited messages; parameters which can be requested are only parsed while requested
        values = {n: None for n in maps}
        for n, m in maps.items():
            if not PARAMS[n][5] and PARAMS[n][4] and PARAMS[n][4][0] != "str":
                c.register(m, L(n))
        listening = {n for n in maps if not PARAMS[n][5] and PARAMS[n][4] and PARAMS[n][4][0] != "str"}
        port.take()
        used = set()
        for op in case["ops"]:
            told.clear()
            if op[0] == "set":
                n = case["names"][op[1]]
                how = PARAMS[n][3]
                if how is None:
                    continue
                v = op[2] if how[0] == "nrpn" else op[2] % 128
                c.set(maps[n], v)
                got = port.take()
                expect(got == [set_message(how, v)], lambda: f"setting {n} to {v} sent {got}, expected {set_message(how, v)}")
                used.add(how)
            elif op[0] == "request":
                n = case["names"][op[1]]
                if not PARAMS[n][5]:
                    continue
                read = PARAMS[n][4]
                c.request(maps[n], L(n))
                got = port.take()
                expect(got == [nrpn_request(read[1], read[2])], lambda: f"requesting {n} sent {got}, expected {nrpn_request(read[1], read[2])}")
                recs, v = answer(read, op[2])
                for r in recs:
                    c.receive(build(r))
                expect(maps[n].value == v, lambda: f"{n} has value {maps[n].value} after the answer {v}")
                expect(n in told, lambda: f"requester of {n} has not been told")
                values[n] = v
                used.add(read)
            else:
                recs, v = answer(op[1], op[2])
                for r in recs:
                    c.receive(build(r))
                for n in listening:
                    if list(PARAMS[n][4]) == op[1]:
                        values[n] = v
                        used.add(tuple(op[1]))
                        expect(n in told, lambda: f"{n} has not been informed about {op}")
                    else:
                        expect(n not in told, lambda: f"{n} has been informed about a message for {op[1]}")
            for n, m in maps.items():
                if PARAMS[n][4] is not None and n in listening or PARAMS[n][5]:
                    if not (op[0] == "set"):
                        expect(m.value == values[n] or op[0] == "request" and list(PARAMS[n][4]) == list(PARAMS[case["names"][op[1]]][4]),
                               lambda: f"{n} has value {m.value!r}, expected {values[n]!r} after {op}")
                    values[n] = m.value
        rec.nontrivial_if(len(used) >= 2)


# ------------------------------------------------------------------ actions
A = "clients.kemper.actions."
BIN = ("clients.local.actions.binary_switch", "BINARY_SWITCH")

# name -> (kind, module, function, positional arguments, keyword arguments, set, read)
ACTIONS = {}
for i, k in enumerate(FIXED):
    ACTIONS["fixed " + k] = ("switch", A + "fixed_fx", "FIXED_EFFECT_STATE", [i], {}, ("nrpn", 5, FIXED[k]), ("nrpn", 5, FIXED[k]))
for k in LOOPER:
    ACTIONS["looper " + k] = ("momentary", A + "looper", "LOOPER_" + k, [], {}, ("nrpn", 0x7d, LOOPER[k]), None)
for i in range(4):
    ACTIONS["button %d" % (i + 1)] = ("blind", A + "effect_button", "EFFECT_BUTTON", [i + 1], {}, ("cc", 75 + i), None)
ACTIONS["morph"] = ("momentary", A + "morph", "MORPH_BUTTON", [], {}, ("cc", 80), ("nrpn", 0, 11))
ACTIONS["morph display"] = ("nothing", A + "morph", "MORPH_DISPLAY", [], {}, None, ("nrpn", 0, 11))
ACTIONS["tap"] = ("momentary", A + "tempo", "TAP_TEMPO", [], {}, ("cc", 30), None)
ACTIONS["tuner"] = ("switch", A + "tuner", "TUNER_MODE", [], {}, ("cc", 31), ("nrpn", 0x7f, 0x7e))
for n, p in PARAMS.items():
    if p[3] and p[4] and p[3][0] == p[4][0] == "nrpn" and p[3] == p[4] and n.split()[0] in ("amp", "cab", "freeze", "rotary", "mix", "space", "volume"):
        ACTIONS["switch " + n] = ("switch", *BIN, [n], {}, p[3], p[4])
for n in ("gain", "volume", "transpose", "main", "monitor", "looper vol", "bpm", "mix DLY"):
    ACTIONS["wheel " + n] = ("wheel", "controller.actions.EncoderAction", "EncoderAction", [n], {}, PARAMS[n][3], PARAMS[n][4])
ACTIONS["wheel AMP_GAIN"] = ("wheel", A + "amp", "AMP_GAIN", [], {}, ("nrpn", 10, 4), ("nrpn", 10, 4))
ACTIONS["wheel ENCODER_BPM"] = ("wheel", A + "tempo_bpm", "ENCODER_BPM", [], {}, ("nrpn", 4, 0), ("nrpn", 4, 0))
ACTIONS["wheel TRANSPOSE"] = ("wheel28", A + "rig_transpose", "ENCODER_RIG_TRANSPOSE", [], {}, ("nrpn", 4, 4), ("nrpn", 4, 4))
for n in ["pedal " + k for k in PEDALS] + ["morph pedal"]:
    ACTIONS[n] = ("pedal", "controller.actions.AnalogAction", "AnalogAction", [n], {}, PARAMS[n][3], None)
ANAMES = sorted(ACTIONS)
BYKIND = {k: [n for n in ANAMES if ACTIONS[n][0].startswith(k)] for k in ("switch", "momentary", "blind", "nothing", "wheel", "pedal")}
AREADS = sorted({tuple(a[6]) for a in ACTIONS.values() if a[6]} | {tuple(p[4]) for p in PARAMS.values() if p[4] and p[4][0] == "nrpn" and p[4][1:] not in ((0x7c, 0), (0x7d, 0x54), (0x7c, 0x0f))})


def action_cases():
    @st.composite
    def f(draw):
        names = draw(st.lists(st.sampled_from(BYKIND["switch"] * 2 + BYKIND["momentary"] + BYKIND["blind"] + BYKIND["nothing"] + BYKIND["wheel"] * 2 + BYKIND["pedal"]), min_size=1, max_size=6, unique=True))
        n = len(names)
        # one wheel or switch per address, else they interact by design
        seen, keep = set(), []
        for x in names:
            r = ACTIONS[x][5]
            if r is None or r not in seen:
                keep.append(x)
                seen.add(r)
        names, n = keep, len(keep)
        ops = []
        own = [list(ACTIONS[x][6]) for x in names if ACTIONS[x][6]]
        for _ in range(draw(st.integers(1, 10))):
            k = draw(st.integers(0, 9))
            if k <= 5 or not own:
                i = draw(st.integers(0, n - 1))
                kind = ACTIONS[names[i]][0]
                if kind.startswith("wheel"):
                    ops.append(["turn", i, draw(st.integers(-3, 3))])
                elif kind == "pedal":
                    ops.append(["move", i, draw(st.integers(0, 65535))])
                else:
                    ops.append(["tap", i])
            elif k <= 8:
                ops.append(["set", draw(st.sampled_from(own)), draw(st.one_of(st.integers(0, 1), gens.v14))])
            else:
                ops.append(["set", list(draw(st.sampled_from(AREADS))), draw(st.one_of(st.integers(0, 1), gens.v14))])
        return {"names": names, "ops": ops, "bidi": draw(st.booleans()), "mode": draw(st.sampled_from(["LATCH", "HOLD_MOMENTARY"])), "start": draw(st.lists(st.one_of(st.integers(0, 1), gens.v14), min_size=4, max_size=4))}
    return f()


def run_actions(case, rec):
    with World() as w:
        mode = getattr(w.get("controller.actions", "PushButtonAction"), case["mode"])
        inputs, labels, models = [], [], []
        for i, n in enumerate(case["names"]):
            kind, module, attr, args, kw, sett, read = ACTIONS[n]
            lab = label(w, y=30 * i, h=28)
            kw = dict(kw)
            if attr in ("BINARY_SWITCH", "EncoderAction", "AnalogAction"):
                args = [make(w, args[0])]
            if kind.startswith("wheel"):
                a = w.get(module, attr)(*args, **kw)
                inputs.append({"kind": "encoder", "actions": [a]})
            elif kind == "pedal":
                a = w.get(module, attr)(*args, **kw)
                inputs.append({"kind": "pot", "actions": [a]})
            else:
                if kind == "switch":
                    kw["mode"] = mode
                a = w.get(module, attr)(*args, display=lab, **kw)
                inputs.append({"actions": [a], "pixels": [i]})
            labels.append(lab)
        app = App(w, inputs, tick_ms=20, splash=splash_callback(w, root(w, labels)), protocol=w.imp("clients.kemper").KemperBidirectionalProtocol(30) if case["bidi"] else None)
        params = {r[1:]: case["start"][i % 4] for i, r in enumerate(AREADS)}
        dev = Device(app, bidirectional=case["bidi"], params=params)
        app.init()

        def advance(ms):
            end = w.clock.ms + ms
            while w.clock.ms < end:
                dev.tick()
                app.tick()

        def looks():
            leds = app.leds()
            return [(leds[i], l.back_color, l.text) if ACTIONS[n][0] in ("switch", "momentary", "blind", "nothing") else None for i, (n, l) in enumerate(zip(case["names"], labels))]

        def on(i):
            return labels[i].back_color

        advance(1500)
        dev.received.clear()
        used = changed = 0
        colors = {}

        def known(a):
            """The controller can only learn about the tuner state in a session"""
            return tuple(a) != (0x7f, 0x7e) or case["bidi"]

        def check_states():
            for i, n in enumerate(case["names"]):
                kind, _, _, _, _, sett, read = ACTIONS[n]
                if kind != "switch" or not known(read[1:]):
                    continue
                v = dev.params[read[1:]]
                st_ = v == 1 if n == "tuner" else v >= 1
                colors.setdefault((i, st_), looks()[i][:2])
                expect(looks()[i][:2] == colors[(i, st_)], lambda: f"{n} shows {looks()[i][:2]} at device value {v}, but {colors[(i, st_)]} before")
                if (i, not st_) in colors:
                    expect(colors[(i, True)] != colors[(i, False)], f"{n} shows on and off alike")

        check_states()
        for op in case["ops"]:
            rec.label(op[0])
            before = looks()
            dev.received.clear()
            if op[0] == "set":
                a = tuple(op[1][1:])
                v = op[2]
                dev.set(a[0], a[1], v)
                if a == (0x7f, 0x7e):
                    v %= 2
                    dev.set(a[0], a[1], v)
                advance(1000)
                now = looks()
                for i, n in enumerate(case["names"]):
                    r = ACTIONS[n][6]
                    if r is None or tuple(r[1:]) != a:
                        expect(now[i] == before[i], lambda: f"{n} changed from {before[i]} to {now[i]} although only {a} changed at the device")
                    else:
                        changed += now[i] != before[i]
                expect(dev.received == [], lambda: f"a change at the device made the controller send {dev.received}")
                check_states()
                continue
            n = case["names"][op[1]]
            kind, _, _, _, _, sett, read = ACTIONS[n]
            old = None if read is None else dev.params[read[1:]]
            if op[0] == "tap":
                app.press(op[1])
                app.release(op[1])
                advance(1000)
                if kind == "switch":
                    if not known(read[1:]):
                        # without a session the state is unknown and shows as off
                        exp = [[1], [0]]
                    else:
                        is_on = old == 1 if n == "tuner" else old >= 1
                        exp = [[0 if is_on else 1]]
                elif kind == "momentary":
                    exp = [[1, 0]]
                elif kind == "blind":
                    exp = [[1], [0]]
                else:
                    exp = [[]]
            elif op[0] == "turn":
                app.models[op[1]].position += op[2]
                advance(1000)
                lo, hi = (28, 100) if kind == "wheel28" else (0, 16383)
                step = 1 if kind == "wheel28" else None
                if step is None:
                    step = 80
                new = max(lo, min(hi, old + op[2] * step))
                if old < lo or old > hi:
                    exp = None
                else:
                    exp = [[new]] if new != old else [[]]
            else:
                app.models[op[1]].value = op[2]
                advance(1000)
                exp = None
            got = dev.received
            if sett is None:
                expect(got == [], lambda: f"{n} sent {got}")
                continue
            msgs = None if exp is None else [[set_message(sett, v) for v in e] for e in exp]
            if msgs is not None:
                expect(list(got) in msgs, lambda: f"{op} of {n} (device value {old}) sent {got}, expected {msgs}")
            else:
                for m in got:
                    expect(m[0] == "cc" and m[1] == sett[1] and 0 <= m[2] <= 127 if sett[0] == "cc" else m[2][:6] == (2, 0x7f, 1, 0, sett[1], sett[2]), lambda: f"{op} of {n} sent {m}, which is not at {sett}")
                if op[0] == "move":
                    used += len(got) > 0
            used += bool(got)
            check_states()
            now = looks()
            for i, x in enumerate(case["names"]):
                if i != op[1] and not x.startswith("morph") and (ACTIONS[x][6] is None or ACTIONS[x][6] != read):
                    expect(now[i] == before[i], lambda: f"using {n} changed the display of {x} from {before[i]} to {now[i]}")
        expect(not dev.unknown, lambda: f"messages the device does not know: {dev.unknown[:3]}")
        app.check_wire()
        rec.nontrivial_if(used and (changed or used >= 2))


TESTS = [Test("parameters", param_cases, run_params, quick=3000, thorough=100000), Test("actions", action_cases, run_actions, quick=700, thorough=40000)]
