from hypothesis import strategies as st
from ..kit import Test
from ..world import World, nrpn_value
from ..app import App, expect, label, root, splash_callback
from ..kemperdev import Device, SLOTS, SLOT_CC, SLOT_PAGE
from .. import gens

ID = "C29"
RULE = ("Configurations of 1 to 5 effect state switches (both variants, all ten slot addresses, also several for one slot, all display settings, latch, hold and momentary modes) on a device model; histories of presses, holds, "
        "effect type and state changes at the device, rig changes which exchange all slots, and messages for other addresses. After each step text, label colour and LEDs of every switch are compared with a table of the documented "
        "effect types, the device's slot states with a model of the presses, and the messages sent with the controller of the pressed slot. "
        "Non-trivial: a press toggled a filled slot, and an effect type changed to another category.")
NOTE = "For effect type numbers which are not documented only on/off, the independence of the switches and the absence of errors are checked."

# Documented effect types (Kemper MIDI documentation) and the categories and colours they belong to
ORANGE, RED, CYAN, GREEN, BLUE, PURPLE, YELLOW, PINK, WHITE, LGREEN, NONE = \
    (255, 125, 0), (255, 0, 0), (0, 255, 255), (0, 255, 0), (0, 0, 255), (180, 0, 120), (255, 255, 0), (255, 125, 70), (255, 255, 255), (100, 255, 100), (50, 50, 50)
TABLE = {}
for types, name, col in [
    ([0], "-", NONE),
    ([1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 13], "Wah", ORANGE),
    ([11], "Pitch", WHITE),
    ([17, 18, 19, 20, 21, 32, 33, 34, 35, 36, 37, 38, 39, 42], "Dist", RED),
    ([49, 50], "Comp", CYAN),
    ([57, 58], "Gate", CYAN),
    ([64], "Space", GREEN),
    ([65, 66, 67, 71], "Chorus", BLUE),
    ([68], "Vibrato", BLUE),
    ([69], "Rotary", BLUE),
    ([70, 75, 76], "Tremolo", BLUE),
    ([77, 78, 79, 80], "Slicer", BLUE),
    ([81, 82, 83, 89, 91], "Phaser", PURPLE),
    ([97, 98, 99, 100, 101, 102, 103, 104], "EQ", YELLOW),
    ([113, 114, 115, 116], "Boost", RED),
    ([121, 122, 123], "Looper", PINK),
    ([129, 130, 131, 132], "Pitch", WHITE),
    ([137, 138, 139, 140], "Dual", LGREEN),
    ([145, 146, 147, 148, 149, 150, 151, 152, 161, 162, 163, 164, 165, 166], "Delay", GREEN),
    ([177, 178, 179, 180, 181, 182, 183, 193], "Reverb", GREEN),
]:
    for t in types:
        TABLE[t] = (name, col)
# Extended names by type (transcribed from the documented effect list)
EXT = {
    0: "Empty", 1: "Wah", 2: "LP", 3: "HP", 4: "Vowel", 6: "Wah Ph", 7: "Wah Fl", 8: "Wah RR", 9: "Ring", 10: "FShift", 11: "Pitch", 12: "Wah Form",
    13: "VinylStp", 17: "Bit Shp", 18: "Octa Shp", 19: "Soft Shp", 20: "Hard Shp", 21: "Wave Shp", 32: "KDrive", 33: "Green", 34: "Plus DS",
    35: "One DS", 36: "Muff", 37: "Mouse", 38: "KFuzz", 39: "Metal DS", 42: "Full OC", 49: "Comp", 50: "Swell", 57: "Gate 2:1", 58: "Gate 4:1",
    64: "Space", 65: "VChorus", 66: "HChorus", 67: "Air Ch.", 68: "Vibrato", 69: "Rotary", 70: "Tremolo", 71: "MPitch", 75: "Tremolo", 76: "HarmTrem",
    77: "Pulse", 78: "Saw", 79: "PulsePan", 80: "SawPan", 81: "Phaser", 82: "Vibe", 83: "Ph 1way", 89: "Flanger", 90: "Fl 1way", 97: "Graphic",
    98: "StudioEQ", 99: "MetalEQ", 100: "Acoustic", 101: "Wide", 102: "WidePh", 103: "WideDLY", 104: "Double", 113: "Treble", 114: "Lead", 115: "Boost",
    116: "WahBoost", 121: "Loop", 122: "Loop", 123: "LoopDist", 129: "Transp", 130: "ChromPtch", 131: "HarmPtch", 132: "Octave", 137: "DualChrom",
    138: "DualHarm", 139: "DualCryst", 140: "DualLoop", 145: "LDelay", 146: "SDelay", 147: "DualDly", 148: "2TpDelay", 149: "S2TDelay", 150: "Crystal",
    151: "LoopPitch", 152: "FShiftDly", 161: "RhDelay", 162: "MeloChr", 163: "MeloHarm", 164: "QuadDly", 165: "QuadChrm", 166: "QuadHarm",
    177: "LReverb", 178: "NatRev", 179: "EasyRev", 180: "Echo", 181: "Cirrus", 182: "FormRev", 183: "Sphere", 193: "Spring"
}

types = st.one_of(st.sampled_from(sorted(TABLE)), st.sampled_from(sorted(TABLE)), st.sampled_from(sorted(EXT)), st.just(0), gens.rarely(st.integers(0, 16383), 0, 6))


def cases():
    @st.composite
    def f(draw):
        slots = draw(st.lists(st.integers(0, 9), min_size=1, max_size=5))
        switches = [{"slot": s, "ext": draw(st.booleans()), "names": draw(st.booleans()), "text": draw(gens.rarely(st.just("My"), None, 5)), "color": draw(gens.rarely(gens.color, None, 5)),
                     "mode": draw(st.sampled_from(["LATCH", None, "LATCH", None, "MOMENTARY"])), "label": draw(gens.rarely(st.just(False), True)), "leds": draw(gens.rarely(st.just(False), True)),
                     "pixels": draw(st.integers(1, 3))} for s in slots]
        n = len(slots)
        ops = []
        for _ in range(draw(st.integers(2, 12))):
            k = draw(st.integers(0, 9))
            if k <= 3:
                ops.append(["tap", draw(st.integers(0, n - 1))])
            elif k == 4:
                ops.append(["hold", draw(st.integers(0, n - 1))])
            elif k <= 6:
                ops.append(["type", draw(st.sampled_from(slots + list(range(10)))), draw(types)])
            elif k == 7:
                ops.append(["state", draw(st.sampled_from(slots + list(range(10)))), draw(st.integers(0, 1))])
            elif k == 8:
                ops.append(["rig", draw(st.integers(0, 624)), draw(st.lists(types, min_size=8, max_size=8)), draw(st.lists(st.integers(0, 1), min_size=8, max_size=8))])
            else:
                ops.append(["noise", draw(st.sampled_from([0x32, 0x33, 0x3c, 0x3d, 0x7d, 4, 0])), draw(st.sampled_from([1, 2, 4, 0x45, 11])), draw(gens.v14)])
        return {"switches": switches, "ops": ops, "bidi": draw(st.booleans()), "types": draw(st.lists(types, min_size=8, max_size=8)), "states": draw(st.lists(st.integers(0, 1), min_size=8, max_size=8)),
                "config": draw(st.fixed_dictionaries({}, optional={"displayDimFactorOff": st.sampled_from([0, 0.5]), "ledBrightnessOn": st.sampled_from([0.5, 1]), "ledBrightnessOff": st.sampled_from([0, 0.125])}))}
    return f()


PAGES = [0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d]


def near(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


def run(case, rec):
    with World() as w:
        ES = w.get("clients.kemper.actions.effect_state", "EFFECT_STATE")
        EX = w.get("clients.kemper.actions.effect_state_extended_names", "EFFECT_STATE_EXT")
        PB = w.get("controller.actions", "PushButtonAction")
        kemper = w.imp("clients.kemper")
        cfg = case["config"]
        dim_off, led_on, led_off = cfg.get("displayDimFactorOff", 0.2), cfg.get("ledBrightnessOn", 0.3), cfg.get("ledBrightnessOff", 0.02)
        inputs, labels, px = [], [], 0
        for i, s in enumerate(case["switches"]):
            lab = label(w, y=30 * i, h=28) if s["label"] else None
            kw = {"display": lab, "show_slot_names": s["names"], "use_leds": s["leds"]}
            if s["text"]:
                kw["text"] = s["text"]
            if s["color"]:
                kw["color"] = tuple(s["color"])
            if s["mode"]:
                kw["mode"] = getattr(PB, s["mode"])
            labels.append(lab)
            inputs.append({"actions": [(EX if s["ext"] else ES)(s["slot"], **kw)], "pixels": list(range(px, px + s["pixels"]))})
            px += s["pixels"]
        app = App(w, inputs, config=cfg, tick_ms=20, splash=splash_callback(w, root(w, [l for l in labels if l])), protocol=kemper.KemperBidirectionalProtocol(30) if case["bidi"] else None)
        params = {}
        for p, t, v in zip(PAGES, case["types"], case["states"]):
            params[(p, 0)], params[(p, 3)] = t, v
        dev = Device(app, bidirectional=case["bidi"], params=params)
        app.init()

        def advance(ms):
            end = w.clock.ms + ms
            while w.clock.ms < end:
                dev.tick()
                app.tick()

        def page(i):
            return SLOT_PAGE[SLOTS[case["switches"][i]["slot"]]]

        def check():
            leds = app.leds()
            at = 0
            for i, s in enumerate(case["switches"]):
                p = page(i)
                t, on = dev.params[(p, 0)], dev.params[(p, 3)]
                doc = t in TABLE
                on = bool(on) and t != 0
                where = lambda: f"switch {i} (slot {SLOTS[s['slot']]}, type {t}, state {dev.params[(p, 3)]}, {s})"
                if not doc:
                    at += s["pixels"]
                    continue
                name, col = TABLE[t]
                if s["ext"]:
                    name = EXT.get(t)
                if s["color"]:
                    col = tuple(s["color"])
                if name is not None and s["names"]:
                    name = SLOTS[s["slot"]] + " " + name
                if s["text"]:
                    name = s["text"]
                if labels[i]:
                    if name is not None:
                        expect(labels[i].text == name, lambda: f"{where()} shows {labels[i].text!r}, expected {name!r}")
                    exp = tuple(int(c * (1 if on else dim_off)) for c in col)
                    expect(near(labels[i].back_color, exp), lambda: f"{where()} has label colour {labels[i].back_color}, expected {exp}")
                exp = tuple(int(c * (led_on if on else led_off)) for c in col)
                if s["leds"]:
                    for q in range(at, at + s["pixels"]):
                        expect(near(leds[q], exp), lambda: f"{where()} has LED {leds[q]}, expected {exp}")
                at += s["pixels"]

        advance(1500)
        check()
        toggled = other = 0
        for op in case["ops"]:
            rec.label(op[0])
            before = dict(dev.params)
            n = len(dev.received)
            if op[0] in ("tap", "hold"):
                s = case["switches"][op[1]]
                a = (page(op[1]), 3)
                t = dev.params[(a[0], 0)]
                app.press(op[1])
                if op[0] == "hold":
                    advance(800)
                app.release(op[1])
                advance(1000)
                sent = dev.received[n:]
                cc = SLOT_CC[SLOTS[s["slot"]]]
                expect(all(m[0] == "cc" and m[1] == cc for m in sent), lambda: f"pressing switch {op[1]} ({SLOTS[s['slot']]}) sent {sent}")
                others = {k: v for k, v in dev.params.items() if k != a}
                expect(others == {k: v for k, v in before.items() if k != a}, "a press changed another parameter")
                if t in TABLE and t != 0:
                    was = before[a]
                    if s["mode"] == "MOMENTARY":
                        exp, msgs = [0], ([1, 0] if not was else [0])
                    elif op[0] == "hold" and s["mode"] is None:
                        exp, msgs = [was], [1 - was, was]
                    else:
                        exp, msgs = [1 - was], [1 - was]
                    toggled += dev.params[a] != was
                    expect(dev.params[a] in exp, lambda: f"{op[0]} of switch {op[1]} ({s}) at state {was} left the slot at {dev.params[a]}, expected {exp}")
                    expect([m[2] for m in sent] == msgs, lambda: f"{op[0]} of switch {op[1]} ({s}) at state {was} sent {sent}, expected values {msgs}")
            else:
                if op[0] == "type":
                    a = (SLOT_PAGE[SLOTS[op[1]]], 0)
                    other += TABLE.get(dev.params[a], 0) != TABLE.get(op[2], 0)
                    dev.set(*a, op[2])
                elif op[0] == "state":
                    dev.set(SLOT_PAGE[SLOTS[op[1]]], 3, op[2])
                elif op[0] == "rig":
                    for p, t, v in zip(PAGES, op[2], op[3]):
                        other += TABLE.get(dev.params[(p, 0)], 0) != TABLE.get(t, 0)
                        dev.set(p, 0, t)
                        dev.set(p, 3, v)
                    dev.load(op[1])
                else:
                    app.feed(nrpn_value(op[1], op[2], op[3]))
                advance(1000)
                expect(dev.received[n:] == [], lambda: f"{op} made the controller send {dev.received[n:]}")
            check()
        expect(not dev.unknown, lambda: f"messages the device does not know: {dev.unknown[:3]}")
        app.check_wire()
        rec.nontrivial_if(toggled and other)


TESTS = [Test("slots", cases, run, quick=800, thorough=40000)]
