"""Random compositions of everything the editor offers: actions, mappings and their parameters are read from
the editor's definitions, values are generated by the documented kind of each parameter. A composition is
plain data: Python expressions as they would stand in a configuration file, with D0, D1, ... for display
labels, B0, ... for encoder buttons and P0, ... for pagers."""
import json
import os

from hypothesis import strategies as st

from .world import REPO
from . import gens

_DEFS = os.path.join(REPO, "web", "htdocs", "definitions")


def _load(name):
    with open(os.path.join(_DEFS, name), encoding="utf-8") as f:
        return json.load(f)


_actions = [dict(a, client=c["client"]) for c in _load("actions.json") for a in c["actions"]]
ACTIONS = {a["name"]: a for a in _actions}
MAPPINGS = {m["name"]: m for c in _load("mappings.json") for m in c["mappings"]}
_meta = _load("meta.json")


def meta(client, entity):
    """The parameter meta data of an entity: name -> definition"""
    out = {}
    for c in _meta:
        if c["client"] == client:
            for e in c["entities"]:
                if e["entityName"] == "default":
                    out.update({p["name"]: p for p in e.get("parameters", [])})
            for e in c["entities"]:
                if e["entityName"] == entity:
                    out.update({p["name"]: p for p in e.get("parameters", [])})
    return out


def target(a):
    for c in _meta:
        if c["client"] == a["client"]:
            for e in c["entities"]:
                if e["entityName"] == a["name"]:
                    return e.get("target")
    return None


SLOTS = ["KemperEffectSlot.EFFECT_SLOT_ID_" + s for s in ("A", "B", "C", "D", "X", "MOD", "DLY", "REV")]
# parameters without a numeric value which can be set
READ_ONLY = ("NAME", "COMMENT", "RIG_DATE", "TUNER_NOTE", "TUNER_DEVIANCE", "BIDIRECTIONAL_SENSING", "RIG_ID", "TEMPO_DISPLAY", "EFFECT_TYPE")
SETTABLE = sorted(n for n in MAPPINGS if not any(x in n for x in READ_ONLY))

COLORS = ["WHITE", "YELLOW", "ORANGE", "RED", "PINK", "PURPLE", "GREEN", "DARK_GREEN", "BLUE", "LIGHT_BLUE", "BLACK", "GRAY"]
color = st.one_of(st.sampled_from(["Colors." + c for c in COLORS]), gens.color.map(repr))
unit = st.one_of(st.sampled_from(["0", "1", "0.15", "0.02", "0.3"]), st.floats(0, 1, width=16).map(repr))
text = st.one_of(st.sampled_from(["''", "'A'", "'Long text with several words'", "'{val}%'", "'{bpm} bpm'", "'{'", "'ä\\n'"]), st.text(alphabet="abc{} %", max_size=8).map(repr))
none = st.just("None")


@st.composite
def mapping(draw, names=tuple(SETTABLE)):
    n = draw(st.sampled_from(names))
    args = []
    for p in MAPPINGS[n].get("parameters", []):
        args.append(draw({"slot_id": st.sampled_from(SLOTS), "num": st.integers(1, 4).map(str), "rig": st.integers(1, 5).map(str)}[p["name"]]))
    return f"{n}({', '.join(args)})"


raw_message = st.one_of(
    st.tuples(st.integers(0x80, 0xbf), gens.b7, gens.b7), st.tuples(st.integers(0xc0, 0xdf), gens.b7),
    st.lists(gens.b7, min_size=1, max_size=6).map(lambda l: (0xf0, *l, 0xf7))).map(list)


def value(name, m, ctx):
    """Strategy for the expression passed as parameter "name", by its documented kind"""
    display = st.one_of(none, st.integers(0, max(0, ctx["labels"] - 1)).map(lambda i: f"D{i}")) if ctx["labels"] else none
    button = st.one_of(none, *[st.just(f"B{i}") for i in range(ctx["buttons"])])
    special = {
        "mapping": mapping(),
        "offset": st.sampled_from(["1", "-1", "10", "512", "-600", "16383", "0"]),
        "max_value": st.sampled_from(["None", "127", "100", "1", "64"]),
        "max_bank": st.one_of(none, st.integers(1, 125).map(str)),
        "step_width": st.sampled_from(["None", "1", "40", "80", "0.5", "0.1", "2"]),
        "min_value": st.sampled_from(["0", "10"]),
        "num_steps": st.sampled_from(["128", "2", "1000", "65536"]),
        "max_frame_rate": st.sampled_from(["24", "1", "100"]),
        "cal_min_window": unit,
        "min_raw_value": st.sampled_from(["1024", "0", "3000"]),
        "auto_calibrate": st.sampled_from(["True", "False"]),
        "transfer_function": st.sampled_from(["None", "lambda raw: raw // 512"]),
        "convert_value": st.sampled_from(["None", "lambda value: str(value)"]),
        "preview_text_callback": st.sampled_from(["None", "lambda value: 'V' + str(value)"]),
        "text_callback": st.sampled_from(["None", "lambda action, bank, rig: str(bank) + '/' + str(rig)"]),
        "color_callback": st.sampled_from(["None", "lambda action, bank, rig: (bank, rig, 7)"]),
        "repeat_interval_millis": st.sampled_from(["200", "0", "None", "500", "10"]),
        "change_timeout_millis": st.integers(1, 5000).map(str),
        "value_on": st.one_of(st.integers(0, 127).map(str), st.just("1")), "value_off": st.one_of(st.integers(0, 127).map(str), st.sampled_from(["'auto'", "0"])),
        "reference_value": st.one_of(none, st.integers(0, 127).map(str)),
        "comparison_mode": st.sampled_from(["BinaryParameterCallback." + x for x in ("EQUAL", "GREATER", "GREATER_EQUAL", "LESS", "LESS_EQUAL", "NO_STATE_CHANGE")]),
        "mode": st.sampled_from(["PushButtonAction." + x for x in ("LATCH", "HOLD_MOMENTARY", "MOMENTARY", "MOMENTARY_INVERSE", "ENABLE", "DISABLE", "ONE_SHOT", "NO_STATE_CHANGE")]),
        "display_dim_factor_on": st.one_of(unit, st.sampled_from(["None", "'off'"])), "led_brightness_on": st.one_of(unit, st.sampled_from(["None", "'off'"])),
        "display_dim_factor_off": st.one_of(unit, st.sampled_from(["None", "'on'"])), "led_brightness_off": st.one_of(unit, st.sampled_from(["None", "'on'"])),
        "dim_factor": st.one_of(unit, st.sampled_from(["'on'", "'off'"])),
        "auto_exclude_rigs": st.sampled_from(["None", "(1,)", "[2, 3]", "(1, 2, 3, 4, 5)"]),
        "keycodes": st.one_of(st.integers(4, 100).map(str), st.lists(st.integers(4, 100), min_size=1, max_size=3).map(repr), st.just("Keycode.LEFT_ARROW")),
        "message": raw_message.map(repr), "message_release": st.one_of(none, raw_message.map(repr)),
        "messages": st.lists(raw_message, min_size=1, max_size=3).map(repr), "messages_release": st.one_of(none, st.lists(raw_message, min_size=1, max_size=3).map(repr)),
        "led_colors": st.lists(gens.color, min_size=1, max_size=3).map(repr), "display_colors": st.one_of(none, st.lists(gens.color, min_size=1, max_size=3).map(repr)),
        "texts": st.lists(st.sampled_from(["a", "b", ""]), min_size=1, max_size=3).map(repr),
        "num_leds": st.just("1"),
        "accept_action": button, "cancel_action": button,
        "preview_reset_mapping": st.one_of(none, st.just("KemperMappings.RIG_ID()")),
        "show_slot_names": st.sampled_from(["True", "False"]), "keep_bank": st.sampled_from(["True", "False"]), "rig_btn_morph": st.sampled_from(["True", "False"]), "momentary_morph": st.sampled_from(["True", "False"]),
        "preselect": st.sampled_from(["True", "False"]), "remember_off_value": st.sampled_from(["True", "False"]),
        "back_color": st.one_of(none, color), "text_color": st.one_of(none, color),
        "led_brightness_1": unit, "led_brightness_2": unit,
        "morph_id": none,
    }
    if name in special:
        return special[name]
    if name == "led_brightness":
        return st.one_of(unit, st.sampled_from(["'on'", "'off'"])) if m.get("type") == "any" and ctx.get("onoff") else unit
    kind = m.get("type")
    if name in ("display", "preview_display", "change_display", "morph_display"):
        # labels without background (like the rig name) are used for previews only
        return st.one_of(display, st.just("N0")) if n_preview(name) else display
    if kind == "bool":
        return st.sampled_from(["True", "False"])
    if kind == "color":
        return st.one_of(color, none) if ctx.get("optional") else color
    if kind == "text":
        return text
    if m.get("values"):
        return st.sampled_from([v["value"] for v in m["values"]])
    if m.get("range"):
        r = m["range"]
        hi = {"NUM_RIGS_PER_BANK": 5, "NUM_BANKS": 125}.get(r["max"], r["max"])
        extra = [v["value"] for v in r.get("additionalValues", [])]
        base = st.floats(r["min"], hi, width=16).map(repr) if kind == "float" else st.integers(r["min"], hi).map(str)
        return st.one_of(base, st.sampled_from(extra)) if extra else base
    if kind == "float":
        return unit
    return None


def n_preview(name):
    return name in ("preview_display", "change_display")


SKIP = {"id", "enable_callback"}


@st.composite
def call(draw, name, ctx, rate=2):
    """name(...) with random parameters. ctx: labels, buttons, pages (list of (pager, id))"""
    a = ACTIONS[name]
    m = meta(a["client"], name)
    args = {}
    for p in a["parameters"]:
        n = p["name"]
        if n in SKIP:
            continue
        c = dict(ctx, optional=p["default"] == "None", onoff=p["default"] in ('"off"', '"on"'))
        s = value(n, m.get(n, {}), c)
        if s is None:
            continue
        if p["default"] is None or n in ("display", "preview_display") or draw(st.integers(0, rate)) == 0:
            args[n] = draw(s)
    # documented: both off values have to be given together with a bank
    if name.startswith("RIG_SELECT"):
        if args.get("rig_off", "None") != "None" and args.get("bank", "None") != "None" and args.get("bank_off", "None") == "None":
            args["bank_off"] = "'auto'"
    elif args.get("bank_off") == "'auto'":
        del args["bank_off"]   # only rig selections can remember the last bank
    if name == "ROTATING_MESSAGES":
        args.setdefault("led_colors", "[(1, 2, 3)]")
        args.setdefault("texts", "['x']")
    if ctx.get("pages") and draw(st.integers(0, 2)) == 0:
        pager, pid = draw(st.sampled_from(ctx["pages"]))
        args["id"] = repr(pid)
        args["enable_callback"] = f"{pager}.enable_callback"
    return f"{name}({', '.join(f'{k} = {v}' for k, v in args.items())})"


SWITCH = sorted(n for n, a in ACTIONS.items() if target(a) == "AdafruitSwitch" and "Pager" not in n and n != "ENCODER_BUTTON")
POT = sorted(n for n, a in ACTIONS.items() if target(a) == "AdafruitPotentiometer")
ENCODER = sorted(n for n, a in ACTIONS.items() if target(a) == "AdafruitEncoder")


@st.composite
def composition(draw, max_switches=6, switch_actions=None):
    labels = draw(st.integers(0, 4))
    buttons = draw(gens.rarely(st.integers(1, 2), 0, 2))
    pagers = []
    pages = []
    for i in range(draw(gens.rarely(st.integers(1, 2), 0, 2))):
        ids = draw(st.lists(st.sampled_from([0, 1, 2, "a", "b"]), min_size=1, max_size=3, unique_by=str))
        ps = []
        for x in ids:
            p = {"id": x}
            if draw(st.booleans()):
                p["color"] = tuple(draw(gens.color))
            if draw(st.booleans()):
                p["text"] = draw(st.sampled_from(["Page", "P2", ""]))
            ps.append(p)
        sel = draw(st.one_of(st.none(), st.sampled_from(ids)))
        args = {"pages": repr(ps), "select_page": repr(sel), "display": draw(st.one_of(none, st.integers(0, labels - 1).map(lambda i: f"D{i}"))) if labels else "None",
                "mappings": draw(gens.rarely(mapping(tuple(SETTABLE)).map(lambda s: f"[{s}]"), "[]"))}
        for k in ("led_brightness", "led_brightness_on", "led_brightness_off"):
            if draw(st.booleans()):
                args[k] = draw(unit)
        pagers.append(f"PagerAction({', '.join(f'{k} = {v}' for k, v in args.items())})")
        pages += [(f"P{i}", x) for x in ids]
    ctx = {"labels": labels, "buttons": buttons, "pages": pages}
    names = switch_actions or SWITCH
    action = st.deferred(lambda: st.sampled_from(names).flatmap(lambda n: call(n, ctx)))
    switches = []
    px = 0
    for _ in range(draw(st.integers(1, max_switches))):
        s = {"actions": draw(st.lists(action, min_size=1, max_size=2)), "pixels": draw(st.sampled_from([3, 3, 3, 0, 1, 5]))}
        if draw(st.integers(0, 3)) == 0:
            s["hold"] = draw(st.lists(action, min_size=1, max_size=2))
            s["holdTimeMillis"] = draw(st.sampled_from([600, 100, 1000]))
            s["holdRepeat"] = draw(st.booleans())
        switches.append(s)
    extra = [f"B{i}" for i in range(buttons)] + [f"P{i}" for i in range(len(pagers))]
    for i in range(len(pagers)):
        if draw(st.booleans()):
            extra.append(f"P{i}.proxy(page_id = {draw(st.sampled_from([x for p, x in pages if p == f'P{i}']))!r})")
    for e in extra:
        if draw(st.booleans()):
            switches.append({"actions": [e], "pixels": 3})
        else:
            switches[draw(st.integers(0, len(switches) - 1))]["actions"].append(e)
    return {
        "labels": labels, "buttons": buttons, "pagers": pagers, "switches": switches,
        "pots": [draw(call("AnalogAction", ctx)) for _ in range(draw(gens.rarely(st.integers(1, 2), 0, 2)))],
        "encoders": [draw(st.sampled_from(ENCODER).flatmap(lambda n: call(n, ctx))) for _ in range(draw(gens.rarely(st.integers(1, 2), 0, 2)))],
    }


def namespace(w):
    """Everything a configuration can refer to"""
    ns = {"Colors": w.get("colors", "Colors"), "DEFAULT_SWITCH_COLOR": w.get("colors", "DEFAULT_SWITCH_COLOR"),
          "PushButtonAction": w.get("controller.actions", "PushButtonAction"), "BinaryParameterCallback": w.get("controller.callbacks", "BinaryParameterCallback"),
          "KemperEffectSlot": w.get("clients.kemper", "KemperEffectSlot"), "KemperMappings": w.get("clients.kemper", "KemperMappings"),
          "Keycode": w.imp_abs("adafruit_hid.keycode").Keycode}
    for a in list(ACTIONS.values()) + list(MAPPINGS.values()):
        n = (a.get("importName") or a["name"]).split(".")[0]
        if n not in ns:
            mod = w.imp(a["importPath"].split("pyswitch.", 1)[1])
            ns[n] = getattr(mod, n)
            for k in dir(mod):
                if k.isupper() and k not in ns:
                    ns[k] = getattr(mod, k)
    return ns


def build(w, comp, labels, plain=None):
    """Creates the inputs for App(). labels: the DisplayLabels D0, D1, ..., plain: a label without background"""
    ns = namespace(w)
    ns["N0"] = plain
    for i, d in enumerate(labels):
        ns[f"D{i}"] = d
    for i in range(comp["buttons"]):
        ns[f"B{i}"] = ns["ENCODER_BUTTON"]()
    for i, p in enumerate(comp["pagers"]):
        ns[f"P{i}"] = eval(p, ns)
    inputs = []
    px = 0
    for s in comp["switches"]:
        d = {"actions": [eval(e, ns) for e in s["actions"]], "pixels": list(range(px, px + s["pixels"]))}
        px += s["pixels"]
        if "hold" in s:
            d["actionsHold"] = [eval(e, ns) for e in s["hold"]]
            d["holdTimeMillis"] = s["holdTimeMillis"]
            d["holdRepeat"] = s["holdRepeat"]
        inputs.append(d)
    for e in comp["pots"]:
        inputs.append({"kind": "pot", "actions": [eval(e, ns)]})
    for e in comp["encoders"]:
        inputs.append({"kind": "encoder", "actions": [eval(e, ns)]})
    return inputs
