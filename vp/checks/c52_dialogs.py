"""C52: what the editor shows, and what its dialogs change"""
import ast
import functools
import re

from hypothesis import strategies as st

from ..app import expect
from ..editor import editor
from ..editsrc import Config, dump
from ..kit import Test
from .c43_edits import offered

ID = "C52"
SCALE = 1
RULE = ("configurations of actions of all clients (offered values and hand-written ones; pages, assigned actions, labels used several times, long press actions), and histories of using the editor: opening actions, changing fields, picking options, colours and pages, "
        "switching between press and long press, Apply or closing, adding, removing, dragging, input settings. After each step the actions shown (names, icons, warnings) and the written file, read independently, have to be what the model says. "
        "Non-trivial: at least two steps which changed the configuration, one of them by Apply")
NOTE = "The dialogs' code runs unmodified, with stand-ins for jQuery and Muuri (the order of items in grids). Texts entered do not contain quotes or backslashes."

DEVICES = {"pa_midicaptain_nano_4": "PA_MIDICAPTAIN_NANO", "pa_midicaptain_mini_6": "PA_MIDICAPTAIN_MINI", "pa_midicaptain_10": "PA_MIDICAPTAIN_10"}
DISPLAYS = ["DISPLAY_HEADER_1", "DISPLAY_HEADER_2", "DISPLAY_FOOTER_1"]
DISPLAY_PY = '''from pyswitch.colors import Colors, DEFAULT_LABEL_COLOR
from pyswitch.ui.elements import DisplayLabel
from pyswitch.ui.ui import DisplayElement, DisplayBounds

_LAYOUT = {"font": "/fonts/H20.pcf"}
''' + "".join(f'''
{n} = DisplayLabel(
    layout = _LAYOUT,
    bounds = DisplayBounds({i * 80}, 0, 80, 40)
)
''' for i, n in enumerate(DISPLAYS)) + '''
Splashes = DisplayElement(
    bounds = DisplayBounds(0, 0, 240, 240),
    children = [
        ''' + ", ".join(DISPLAYS) + '''
    ]
)
'''
HAND = {"select": ["_own", "MAPPING_OWN(1, 2)", "KemperEffectSlot.EFFECT_SLOT_ID_A if _own else None", "MAPPING_RIG_NAME( )"], "int": ["_number", "2 * 2", "1500.5", "0x10", "-3"], "bool": ["_flag", "not False"], "color": ["_color", "(1, 2,3)", "Colors.RED", "(Colors.RED, Colors.BLUE)"],
        "any": ["_value", "0.25", "[1, 2]", "{'a': \"b\"}", "lambda x: x", "'it\\'s'", "None"], "text": ["_text", '"it\'s"', "'say \"x\"'", "'a\\\\'", '""', "f'{_x}'", '"a" + "b"', "None", '"\u00e4"'], "float": ["0.5", "1", "_f"], "select-free": ["[Keycode.A, Keycode.B]", "(Keycode.LEFT_SHIFT, Keycode.C)", "Keycode.F5", "_keys"]}
TEXTS = ["abc", "Rig 1", "\u00e4\u20ac", "x # y", "{bpm}", "1", " a "]
ANY = ["0.25", "_value", "[1, 2]", "Colors.RED", "lambda x: x + 1", "'text'", "5", "(1, 2, 3)"]
COLORS = ["Colors.RED", "(1, 2, 3)", "_color", "#"]


@functools.lru_cache(None)
def actions():
    """{target: [definition with client]}"""
    out = {}
    for a in offered():
        out.setdefault(a["target"], []).append(a)
    return out


def find(name, client, target):
    for a in actions()[target]:
        if a["name"] == name and a["client"] in (client, "local"):
            return a
    return None


def title(name):
    return " ".join(w[0].upper() + w[1:] for w in name.split("_"))


# -- cases ----------------------------------------------------------------------------------------------------

def histories():
    n = st.integers(0, 999)
    action = st.fixed_dictionaries({"which": n, "pager": st.integers(0, 9), "hold": st.sampled_from([False, False, True]), "assign": st.sampled_from([0, 0, 0, 1]),
                                    "args": st.lists(st.tuples(n, n, st.integers(0, 5)).map(list), max_size=4), "display": st.sampled_from([None, None, 0, 0, 1, 2]), "page": st.one_of(st.none(), st.none(), n)})
    inp = st.tuples(n, st.lists(action, max_size=3)).map(list)
    page = st.tuples(st.sampled_from(["1", "2", "10", "'a'", "_p"]), st.sampled_from([None, "Colors.RED", "(1, 2, 3)", "_c"]), st.sampled_from([None, "'one'", '"two"', '"it\'s"'])).map(list)
    pagers = st.lists(st.lists(page, min_size=1, max_size=3, unique_by=lambda p: p[0]), max_size=2)
    change = st.one_of(
        st.tuples(st.just("field"), n, n), st.tuples(st.just("field"), n, n), st.tuples(st.just("field"), n, n), st.tuples(st.just("option"), n, n), st.tuples(st.just("color"), n, st.integers(0, 0xffffff)),
        st.tuples(st.just("page"), n), st.tuples(st.just("hold"), st.booleans()), st.tuples(st.just("assign"), st.sampled_from(["", "_mine", "_other"])), st.tuples(st.just("switch"), n),
        st.tuples(st.just("pages"), st.sampled_from(["add", "remove", "id", "color", "text"]), n, n), st.tuples(st.just("more"),)).map(list)
    changes = st.lists(change, max_size=4)
    pages = st.lists(st.tuples(st.just("pages"), st.sampled_from(["add", "remove", "id", "color", "text"]), n, n).map(list), min_size=1, max_size=4)
    done = st.sampled_from(["apply", "apply", "apply", "close"])
    op = st.one_of(
        st.tuples(st.just("edit"), n, changes, done), st.tuples(st.just("edit"), n, changes, done), st.tuples(st.just("edit"), n, st.just([]), st.just("apply")), st.tuples(st.just("add"), n, n, changes, done),
        st.tuples(st.just("pager"), n, pages, done), st.tuples(st.just("remove"), n, st.booleans()), st.tuples(st.just("drag"), n, n), st.tuples(st.just("settings"), n, st.booleans(), st.one_of(st.booleans(), st.integers(0, 5000)))).map(list)
    return st.fixed_dictionaries({"device": st.sampled_from(sorted(DEVICES)), "inputs": st.lists(inp, min_size=1, max_size=6), "pagers": pagers, "ops": st.lists(op, min_size=2, max_size=7)})


def pick(items, i):
    items = list(items)
    return items[i % len(items)]


def value_for(p, i, hand):
    """Source of a value for a parameter in the initial file"""
    t = p["type"] or "any"
    if t == "select-page":
        return None
    if hand == 0:
        return pick(HAND.get(t, HAND["any"]), i)
    if p["values"]:
        return str(pick(p["values"], i).get("value", pick(p["values"], i)["name"]))
    if t == "bool":
        return pick(["True", "False"], i)
    if t == "int":
        return str(i)
    if t == "text":
        return repr(pick(TEXTS, i))
    if t == "color":
        return pick(["Colors.RED", "(1, 2, 3)", "Colors.LIGHT_BLUE"], i)
    return pick(["0.25", "_value", "None", "5"], i)


class Sources:
    """The initial inputs.py"""

    def __init__(self, case, hw):
        self.imports, self.assigns, self.inputs = set(), [], []
        self.pagers = [f"_pager{i + 1}" if i else "_pager" for i in range(len(case["pagers"]))]
        self.count = 0
        self.case = case
        used = set()
        switches = [h for h in hw if h[2] == "AdafruitSwitch"]
        rows = []
        pager_at = {}
        for i in range(len(case["pagers"])):
            pager_at.setdefault(i % len(switches), []).append(i)
        for i, acts in case["inputs"]:
            h = hw[i % len(hw)]
            if h[0] in used:
                continue
            used.add(h[0])
            rows.append((h, acts))
        for k in pager_at:
            h = switches[k]
            if h[0] not in used:
                used.add(h[0])
                rows.append((h, []))
        for h, acts in rows:
            lists = {False: [], True: []}
            for k, idx in pager_at.items():
                if switches[k][0] == h[0]:
                    for j in idx:
                        lists[False].append(self.pagers[j])
                        pages = ", ".join("{" + ", ".join(f'"{n}": {v}' for n, v in zip(("id", "color", "text"), p) if v) + "}" for p in case["pagers"][j])
                        self.imports.add((find("PagerAction", "local", "AdafruitSwitch")["importPath"], "PagerAction"))
                        self.assigns.append((self.pagers[j], f"PagerAction(pages = [{pages}])"))
            for a in acts:
                lists[a["hold"] and h[2] == "AdafruitSwitch"].append(self.action(a, h[2]))
            if lists[True] or h[2] == "AdafruitSwitch" and len(acts) % 2:
                self.inputs.append(f'    {{\n        "assignment": {h[1]},\n        "actions": [{", ".join(lists[False])}],\n        "actionsHold": [{", ".join(lists[True])}]\n    }}')
            else:
                self.inputs.append(f'    {{\n        "assignment": {h[1]},\n        "actions": [{", ".join(lists[False])}]\n    }}')

    def action(self, a, target):
        d = pick([x for x in actions()[target] if x["name"] != "PagerAction" and (self.pagers or x["name"] != "PagerAction.proxy")], a["which"])
        if d["name"] == "PagerAction.proxy":
            j = a["pager"] % len(self.pagers)
            name = self.pagers[j] + ".proxy"
        else:
            name = d["name"]
            self.imports.add((d["importPath"], name))
        args = {}
        for p in d["parameters"]:
            if p["fixed"] is None:
                args[p["name"]] = self.case["pagers"][j][a["which"] % len(self.case["pagers"][j])][0] if p["type"] == "select-page" else value_for(p, a["which"], 1)
        for i, v, hand in a["args"]:
            p = pick(d["parameters"], i)
            val = value_for(p, v, hand)
            if val is not None:
                args[p["name"]] = val
        names = [p["name"] for p in d["parameters"]]
        if a["display"] is not None and "display" in names:
            args["display"] = DISPLAYS[a["display"]]
        if a["page"] is not None and self.pagers and "enable_callback" in names and "id" in names:
            j = a["page"] % len(self.pagers)
            args["enable_callback"] = self.pagers[j] + ".enable_callback"
            args["id"] = pick(self.case["pagers"][j], a["page"] // 2)[0]
        src = name + "(" + ", ".join(f"{k} = {v}" for k, v in args.items()) + ")"
        if a["assign"]:
            self.count += 1
            n = f"_action{self.count}"
            self.assigns.append((n, src))
            return n
        return src

    def text(self):
        return (f"from pyswitch.hardware.devices.{self.case['device']} import *\nfrom pyswitch.colors import Colors\nfrom display import {', '.join(DISPLAYS)}\nfrom own import *\n" + "".join(f"from {m} import {n}\n" for m, n in sorted(self.imports))
                + "".join(f"\n{n} = {s}\n" for n, s in self.assigns) + "\nInputs = [\n" + ",\n".join(self.inputs) + "\n]\n")


# -- the model ------------------------------------------------------------------------------------------------

def read(src):
    """{input: {actions, actionsHold, time, repeat}} of a file; actions are dicts"""
    tree = ast.parse(src)
    env = {t.id: s.value for s in tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
    cfg = Config(src)

    def action(node):
        assign = None
        if isinstance(node, ast.Name):
            assign, node = node.id, env.get(node.id)
        expect(isinstance(node, ast.Call) and not node.args, lambda: f"no action: {assign} in\n{src}")
        name = ast.unparse(node.func)
        args = {}
        for k in node.keywords:
            if k.arg == "pages" and isinstance(k.value, ast.List):
                args["pages"] = [{kk.value: dump(vv) for kk, vv in zip(d.keys, d.values)} for d in k.value.elts]
            else:
                args[k.arg] = dump(k.value)
        mod = cfg.imports.get(name)
        client = mod[0].split(".")[2] if mod and mod[0].startswith("pyswitch.clients.") else "local"
        return {"name": name, "assign": assign, "args": args, "client": client if client != "local" else None, "src": {k.arg: ast.unparse(k.value) for k in node.keywords}, "raw": {k.arg: ast.get_source_segment(src, k.value) for k in node.keywords}}
    out = {}
    for el in env["Inputs"].elts:
        d = env[el.id] if isinstance(el, ast.Name) else el
        keys = {k.value: v for k, v in zip(d.keys, d.values)}
        out[keys["assignment"].id] = {"actions": [action(x) for x in keys["actions"].elts] if "actions" in keys else [], "actionsHold": [action(x) for x in keys["actionsHold"].elts] if "actionsHold" in keys else [],
                                      "time": dump(keys["holdTimeMillis"]) if "holdTimeMillis" in keys else None, "repeat": dump(keys["holdRepeat"]) if "holdRepeat" in keys else None}
    return out


def plain(a):
    return {"name": a["name"], "assign": a["assign"], "args": a["args"]}


def definition(a, target, model):
    name = a["name"]
    if name.endswith(".proxy"):
        name = "PagerAction.proxy"
    return find(name, a["client"] or "local", target)


def pagers_of(model):
    return {a["assign"]: a["args"]["pages"] for i in model.values() for k in ("actions", "actionsHold") for a in i[k] if a["name"] == "PagerAction" and isinstance(a["args"].get("pages"), list)}


NAMED = {"EncoderAction": "Other Parameter", "AnalogAction": "Other Parameter", "BINARY_SWITCH": "Other Parameter (w.FB)"}
FIXED = {"TRANSPOSE": "Transpose", "GATE": "Gate (fixed)", "COMP": "Compressor (fixed)", "BOOST": "Booster (fixed)", "WAH": "Wah (fixed)", "CHORUS": "Chorus (fixed)", "AIR": "Air Chorus (fixed)", "DBL_TRACKER": "Doubler (fixed)"}


def words(s):
    return " ".join(w[:1].upper() + w[1:].lower() for w in s.split("_"))


def mapping_name(raw):
    return words(re.sub(r"\(.*\)", "", raw.replace("MAPPING_", "").replace("KemperMappings.", "")))


def shown_name(a, d):
    """Text of an action's button; None: anything"""
    if d is None:
        return a["name"]
    n, raw = d["name"], a["raw"]

    def given(k):
        return k in raw and raw[k] != "None"

    def v(k):
        p = next(p for p in d["parameters"] if p["name"] == k)
        return raw[k] if k in raw else p["default"]
    if n == "PagerAction":
        return f"Select {a['assign']}|{raw['select_page']}" if given("select_page") else f"Rotate {a['assign']}"
    if n == "PagerAction.proxy":
        return f"Select {a['name'].split('.')[0]}|{raw['page_id']}" if given("page_id") else "Select Page"
    if n in NAMED or n == "PARAMETER_UP_DOWN":
        if not given("mapping"):
            return NAMED.get(n, "Parameter Up/Down")
        if "\n" in raw["mapping"]:
            return None
        out = mapping_name(raw["mapping"])
        if n == "PARAMETER_UP_DOWN" and given("offset"):
            if not re.fullmatch(r"-?\d+", raw["offset"]):
                return None
            out += " Up" if int(raw["offset"]) > 0 else " Down"
        return out
    if n == "CUSTOM_MESSAGE":
        if not given("text") or raw["text"] in ("''", '""'):
            return "Custom MIDI Message" if raw.get("text") != '""' else None
        return raw["text"].replace('"', "").replace("'", "")
    if n == "ROTATING_MESSAGES":
        return "Rotating MIDI Messages"
    if n == "ENCODER_BUTTON":
        return "Encoder Button"
    if n == "HID_KEYBOARD":
        return "USB Key " + re.sub(r"Keycode\.|[\[\]()]", "", raw["keycodes"]) if given("keycodes") else "USB Key"
    if d["client"] == "kemper":
        if n == "RIG_SELECT":
            if given("rig_off"):
                return f"Toggle Rigs {v('rig')}/{v('rig_off')}"
            return "Select Current Rig" if raw.get("rig") == "None" else f"Select Rig {v('rig')}"
        if n == "RIG_SELECT_AND_MORPH_STATE":
            return f"Rigs {v('rig')}/{v('rig_off')} & Morph" if given("rig_off") else f"Rig {v('rig')} & Morph"
        if n == "BANK_SELECT":
            if given("bank_off"):
                return f"Toggle Banks {v('bank')}/{v('bank_off')}"
            return ("Preselect Bank " if raw.get("preselect") == "True" else "Select Bank ") + v("bank")
        if n == "EFFECT_BUTTON":
            return f"Effect Button {v('num')}"
        if n in ("EFFECT_STATE", "EFFECT_STATE_EXT"):
            slot = raw["slot_id"]
            m = re.fullmatch(r"KemperEffectSlot\.EFFECT_SLOT_ID_(A|B|C|D|X|MOD|DLY|REV|DLY_NO_SPILL|REV_NO_SPILL)", slot)
            return "Effect State " + (m.group(1).split("_")[0] if m else "?")
        if n == "FIXED_EFFECT_STATE":
            s = raw["slot"].replace("FIXED_SLOT_ID_", "")
            return FIXED.get(s, "Fixed Effect State")
        special = {"LOOPER_REC_PLAY_OVERDUB": "Looper Rec|Play|OD", "ENCODER_BPM": "Tempo (BPM)", "ENCODER_RIG_TRANSPOSE": "Rig Transpose", "ENCODER_BANK_SELECT": "Bank Select"}
        if n in special:
            return special[n]
    out = words(n)
    return out.replace("Boomerang ", "", 1) if d["client"] == "boomerang" else out


def page_of(a):
    ec, pid = a["raw"].get("enable_callback"), a["raw"].get("id")
    if not ec or ec == "None" or not pid or pid == "None" or ec.count(".") != 1:
        return None
    return ec.split(".")[0], pid


def icons(a, d, model):
    out = []
    leds = a["raw"].get("use_leds")
    if leds is None and d is not None and not a["name"].endswith(".proxy"):
        leds = next((p["default"] for p in d["parameters"] if p["name"] == "use_leds"), None)
    if leds == "True":
        out.append("icon-uses-leds")
    if a["raw"].get("display", "None") != "None":
        out.append("icon-has-display")
    if page_of(a):
        pager, pid = page_of(a)
        page = [p for p in pagers_of(model).get(pager, []) if p["id"] == dump(pid) and "color" in p]
        out.append(("icon-page", page[0]["color"] if page else None))
    elif a["raw"].get("enable_callback", "None") != "None":
        out.append("icon-enable-callback")
    if a["assign"]:
        out.append("icon-assign")
    return out


def warned(model):
    """Actions which can want to use a label at the same time as others: [(input, key, index)]"""
    out = set()
    for disp in DISPLAYS:
        uses = [(n, k, i, page_of(a)) for n, e in model.items() for k in ("actions", "actionsHold") for i, a in enumerate(e[k]) for p, v in a["raw"].items() if v == disp and "preview" not in p and "change" not in p]
        for x in uses:
            for y in uses:
                if x[:3] != y[:3] and not (x[3] and y[3] and x[3][0] == y[3][0] and x[3][1] != y[3][1]):
                    out |= {x[:3], y[:3]}
    return out


# -- the run --------------------------------------------------------------------------------------------------

class Run:
    def __init__(self, case, rec):
        self.rec = rec
        self.e = editor()
        actions()       # opens another configuration
        base = f"from pyswitch.hardware.devices.{case['device']} import *\nInputs = []\n"
        self.hw = self.e.call("open", files={"inputs_py": base, "display_py": DISPLAY_PY})
        self.const = {m: c for m, c, _ in self.hw}
        self.target = {m: t for m, _, t in self.hw}
        self.src = Sources(case, self.hw).text()
        self.e.call("open", files={"inputs_py": self.src, "display_py": DISPLAY_PY})
        self.model = read(self.src)
        self.changed = self.applied = 0
        self.check(self.e.call("show"), "opening the configuration")

    def entry(self, name):
        return self.model.get(self.const[name]) or {"actions": [], "actionsHold": [], "time": None, "repeat": None}

    def quiet(self, r, what):
        expect(not r["failures"], lambda: f"{what} fails: {r['failures'][0][:600]}\n{self.src}")
        return r

    def check(self, r, what):
        """What is shown is what the model says"""
        self.quiet(r, what)
        expect(r["dialog"] is None, lambda: f"{what}: the dialog is still open\n{self.src}")
        warn = warned(self.model)
        for inp in r["inputs"]:
            e = self.entry(inp["name"])
            want = [(k, i, a) for k in ("actions", "actionsHold") for i, a in enumerate(e[k])]
            where = f"{what}: input {inp['name']}"
            expect(len(want) == len(inp["items"]), lambda: f"{where} shows {[x['text'] for x in inp['items']]}, configured are {[x[2]['name'] for x in want]}\n{self.src}")
            for (k, i, a), got in zip(want, inp["items"]):
                d = definition(a, self.target[inp["name"]], self.model)
                name = shown_name(a, d)
                expect(name is None or got["text"] == name, lambda: f"{where}: action {a['name']}({a['raw']}) is shown as '{got['text']}', it is '{name}'\n{self.src}")
                expect(got["hold"] == (k == "actionsHold"), lambda: f"{where}: {name} is shown as {'long' if got['hold'] else 'normal'} press action\n{self.src}")
                w = (self.const[inp["name"]], k, i) in warn
                expect((got["warn"] == "W") == w and got["warn"] in (None, "W"), lambda: f"{where}: {name} is{'' if got['warn'] else ' not'} marked for using a label with others at a time, this is {w}\n{self.src}")
                want_icons = icons(a, d, self.model)
                for x, y in zip(want_icons, got["icons"] + [""] * 9):
                    if isinstance(x, tuple):
                        color = x[1]
                        m = re.search(r"rgb(\(.*\))", y)
                        expect(y.startswith("icon-page") and (bool(m) if color is None or "_c" not in color else True) == (color is not None or False), lambda: f"{where}: {name} has icon {y}, its page has color {color}\n{self.src}")
                    else:
                        expect(x == y, lambda: f"{where}: {name} has icons {got['icons']}, right are {want_icons}\n{self.src}")
                expect(len(want_icons) == len(got["icons"]), lambda: f"{where}: {name} has icons {got['icons']}, right are {want_icons}\n{self.src}")

    def written(self, what, want):
        """The file is what the model says"""
        old = self.src
        self.src = self.e.call("files")["inputs_py"]
        try:
            compile(self.src, "inputs.py", "exec")
        except SyntaxError as e:
            expect(False, f"{what} writes an invalid file ({e}):\n{self.src}\n--- before:\n{old}")
        now = read(self.src)
        for n in {**want, **now}:
            a, b = want.get(n), now.get(n)
            empty = {"actions": [], "actionsHold": [], "time": None, "repeat": None}
            a, b = a or empty, b or empty
            for k in ("time", "repeat"):
                expect(a[k] == b[k], lambda: f"{what}: {k} of {n} is {b[k]}, right is {a[k]}\n{self.src}\n--- before:\n{old}")
            for k in ("actions", "actionsHold"):
                expect(len(a[k]) == len(b[k]), lambda: f"{what}: {k} of {n} are {[plain(x) for x in b[k]]}, right is {[plain(x) for x in a[k]]}\n{self.src}\n--- before:\n{old}")
                for x, y in zip(a[k], b[k]):
                    expect(x["name"] == y["name"] and (x["assign"] or None) == y["assign"], lambda: f"{what}: {k} of {n}: {y['name']} ({y['assign']}) instead of {x['name']} ({x['assign']})\n{self.src}\n--- before:\n{old}")
                    if "eff" in x:
                        for p, v in x["eff"].items():
                            got = y["args"].get(p["name"] if isinstance(p, dict) else p)
                            if got is None:
                                got = x["defaults"].get(p)
                            expect(v == got, lambda: f"{what}: parameter {p} of {x['name']} is {got}, right is {v}\n{self.src}\n--- before:\n{old}")
                        expect(set(y["args"]) <= set(x["all"]), lambda: f"{what}: unknown parameters {set(y['args']) - set(x['all'])}\n{self.src}")
                    else:
                        expect(x["args"] == y["args"], lambda: f"{what}: parameters of {x['name']} changed from {x['args']} to {y['args']}\n{self.src}\n--- before:\n{old}")
        self.model = now
        self.changed += 1

    def copy(self):
        return {n: {"actions": list(e["actions"]), "actionsHold": list(e["actionsHold"]), "time": e["time"], "repeat": e["repeat"]} for n, e in self.model.items()}

    def all_items(self):
        return [(m, k, i, a) for m, _, _ in self.hw for k in ("actions", "actionsHold") for i, a in enumerate(self.entry(m)[k])]

    # -- dialogs
    def pager(self, n, changes, done):
        """Another list of pages"""
        items = [x for x in self.all_items() if x[3]["name"] == "PagerAction"]
        if items:
            self.edit(n, changes, done, items)
        else:
            which = [d["name"] for d in actions()["AdafruitSwitch"]].index("PagerAction")
            switches = [i for i, h in enumerate(self.hw) if h[2] == "AdafruitSwitch"]
            self.add(pick(switches, n), which, [["pages", "add", 0, 0]] + changes, done)

    def edit(self, n, changes, done, items=None):
        items = items or self.all_items()
        if not items:
            return
        m, k, i, a = pick(items, n)
        pos = i + (len(self.entry(m)["actions"]) if k == "actionsHold" else 0)
        r = self.quiet(self.e.call("click", what="name", input=m, index=pos), f"opening {a['name']}")
        d = definition(a, self.target[m], self.model)
        expect(r["dialog"] is not None, lambda: f"no dialog for {a['name']}\n{self.src}")
        if d is None:
            expect("can only be edited directly" in r["dialog"]["info"], lambda: f"unknown action {a['name']} is not refused: {r['dialog']['info']}")
            self.check(self.e.call("click", what="close-button"), "closing")
            return
        used = a["assign"] and sum(1 for x in self.all_items() if x[3]["assign"] == a["assign"]) + len(re.findall(rf"\b{a['assign']}\b", self.src)) > 3
        state = Dialog(self, r["dialog"], m, d, a, k == "actionsHold", a["args"], a["assign"], used)
        what = f"editing {a['name']} of {m}"
        r = state.run(changes, r)
        what += f" with {state.log}"
        if done == "close":
            r = self.quiet(self.e.call("click", what="close-button"), what)
            expect(self.e.call("files")["inputs_py"] == self.src, lambda: f"{what}, but not applying, changes the file to\n{self.e.call('files')['inputs_py']}\n--- before:\n{self.src}")
            return self.check(r, what)
        if state.refuse():
            return self.check(self.e.call("click", what="close-button"), what)
        r = self.quiet(self.e.call("click", what="button", text="Apply"), what)
        want = self.copy()
        e = want[self.const[m]]
        new = state.result()
        if state.hold == (k == "actionsHold"):
            e[k][i] = new
        else:
            e[k].pop(i)
            e["actionsHold" if state.hold else "actions"].append(new)
        self.share(want, new)
        self.written(what, want)
        self.applied += 1
        self.check(r, what)

    def share(self, want, new):
        # Assigned actions can be used at several places
        if new["assign"]:
            for e in want.values():
                for k in ("actions", "actionsHold"):
                    e[k] = [new if x["assign"] == new["assign"] else x for x in e[k]]

    def add(self, n, which, changes, done):
        m = self.hw[n % len(self.hw)][0]
        r = self.quiet(self.e.call("click", what="add-action", input=m), "adding")
        have = bool(pagers_of(self.model))
        defs = [d for d in actions().get(self.target[m], []) if d["name"] != "PagerAction.proxy" or have]
        expect(r["dialog"] is not None and len(r["dialog"]["entries"]) == len(actions().get(self.target[m], [])), lambda: f"{r['dialog'] and len(r['dialog']['entries'])} actions offered for {m}, there are {len(actions().get(self.target[m], []))}")
        d = pick(defs, which)
        entry = [x for x in r["dialog"]["entries"] if x == entry_name(d)]
        expect(len(entry) == 1, lambda: f"{d['name']} is offered {len(entry)} times: {r['dialog']['entries']}")
        r = self.quiet(self.e.call("click", what="entry", text=entry[0]), f"selecting {entry[0]}")
        assign = None
        if d["name"] in ("PagerAction", "ENCODER_BUTTON"):
            base = "_pager" if d["name"] == "PagerAction" else "_encoder_button"
            taken = {x[3]["assign"] for x in self.all_items() if x[3]["name"] == d["name"]}
            assign = next(x for x in [base] + [f"{base}{j}" for j in range(2, 99)] if x not in taken)
        state = Dialog(self, r["dialog"], m, d, None, False, None, assign, False)
        what = f"adding {d['name']} to {m}"
        r = state.run(changes, r)
        what += f" with {state.log}"
        if done == "close" or state.refuse():
            r = self.quiet(self.e.call("click", what="close-button"), what)
            expect(self.e.call("files")["inputs_py"] == self.src, lambda: f"{what}, but not applying, changes the file to\n{self.e.call('files')['inputs_py']}\n--- before:\n{self.src}")
            return self.check(r, what)
        r = self.quiet(self.e.call("click", what="button", text="Add"), what)
        want = self.copy()
        e = want.setdefault(self.const[m], {"actions": [], "actionsHold": [], "time": None, "repeat": None})
        new = state.result()
        e["actionsHold" if state.hold else "actions"].append(new)
        self.share(want, new)
        self.written(what, want)
        self.applied += 1
        self.check(r, what)

    def remove(self, n, answer):
        items = [x for x in self.all_items() if not x[3]["assign"]]
        if not items:
            return
        m, k, i, a = pick(items, n)
        pos = i + (len(self.entry(m)["actions"]) if k == "actionsHold" else 0)
        self.e.call("answer", value=answer)
        r = self.quiet(self.e.call("click", what="remove-action", input=m, index=pos), "removing")
        expect(len(r["dialogs"]) == 1 and r["dialogs"][0][0] == "confirm", lambda: f"removing asks {r['dialogs']}")
        want = self.copy()
        if answer:
            want[self.const[m]][k].pop(i)
        self.written(f"removing {a['name']} of {m}{'' if answer else ', refused,'}", want)
        self.check(r, "removing")

    def drag(self, n, t):
        items = self.all_items()
        if not items:
            return
        m, k, i, a = pick(items, n)
        m2, k2, i2, b = pick(items, t)

        def pos(m, k, i):
            return i + (len(self.entry(m)["actions"]) if k == "actionsHold" else 0)
        r = self.quiet(self.e.call("drag", input=m, index=pos(m, k, i), target=m2, to=pos(m2, k2, i2)), "dragging")
        want = self.copy()
        if (m, k, i) != (m2, k2, i2) and self.target[m] == self.target[m2]:
            expect(r["moved"], lambda: f"{a['name']} of {m} cannot be dragged to {m2}")
            # The two are swapped, each keeps its kind
            order = {x: [(kk, v) for kk in ("actions", "actionsHold") for v in want[self.const[x]][kk]] for x in {m, m2}}
            x, y = pos(m, k, i), pos(m2, k2, i2)
            order[m][x], order[m2][y] = order[m2][y], order[m][x]
            for q, lst in order.items():
                for kk in ("actions", "actionsHold"):
                    want[self.const[q]][kk] = [v for z, v in lst if z == kk]
        else:
            expect(not r["moved"], lambda: f"{a['name']} of {m} can be dragged to {m2} ({self.target[m]}, {self.target[m2]})")
        self.written(f"dragging {a['name']} of {m} to {b['name']} of {m2}", want)
        self.check(r, "dragging")

    def settings(self, n, repeat, value):
        m = pick([h for h in self.hw if h[2] == "AdafruitSwitch"], n)[0]
        e = self.entry(m)
        r = self.quiet(self.e.call("click", what="input-settings", input=m), f"settings of {m}")
        f = r["dialog"]["fields"]
        expect(f["Hold Repeat"]["value"] == (e["repeat"] == dump("True")), lambda: f"hold repeat of {m} shown as {f['Hold Repeat']['value']}, it is {e['repeat']}")
        expect(dump(f["Hold Time"]["value"]) == (e["time"] or dump("600")), lambda: f"hold time of {m} shown as {f['Hold Time']['value']}, it is {e['time']}")
        v = bool(value) if repeat else "" if value is True else int(value)
        what = f"setting hold {'repeat' if repeat else 'time'} of {m} to {v}"
        self.quiet(self.e.call("field", field="Hold Repeat" if repeat else "Hold Time", value=v if repeat else str(v)), what)
        r = self.e.call("click", what="button", text="Done")
        want = self.copy()
        w = want.setdefault(self.const[m], {"actions": [], "actionsHold": [], "time": None, "repeat": None})
        w["repeat" if repeat else "time"] = dump(str(v)) if v != "" else None
        self.written(what, want)
        self.check(r, what)


def entry_name(d):
    """Text of an action in the list of actions"""
    n = d["name"]
    special = {"RIG_SELECT": "Select Rig", "RIG_SELECT_AND_MORPH_STATE": "Select Rig & Morph Display", "BANK_SELECT": "Select Bank", "EFFECT_BUTTON": "Effect Button", "EFFECT_STATE": "Effect State", "EFFECT_STATE_EXT": "Effect State (Ext.)",
               "FIXED_EFFECT_STATE": "Fixed Effect State", "LOOPER_REC_PLAY_OVERDUB": "Looper Rec Play Overdub", "ENCODER_BPM": "Tempo (BPM)", "ENCODER_RIG_TRANSPOSE": "Rig Transpose", "ENCODER_BANK_SELECT": "Bank Select", "PagerAction": "Pager",
               "PagerAction.proxy": "Select Page", "HID_KEYBOARD": "USB Keyboard (HID)", "ENCODER_BUTTON": "Encoder Button", "PARAMETER_UP_DOWN": "Parameter Up/Down", "CUSTOM_MESSAGE": "Custom MIDI Message", "ROTATING_MESSAGES": "Rotating MIDI Messages", **NAMED}
    name = special.get(n) or words(n)
    if d["client"] == "boomerang":
        name = name.replace("Boomerang ", "", 1)
    return {"kemper": "Kemper: ", "boomerang": "Boomerang: ", "local": ""}[d["client"]] + name


class Dialog:
    """The open dialog: what has been entered"""

    def __init__(self, run, dialog, m, d, a, hold, args, assign, used):
        self.r, self.m, self.d, self.hold, self.assign, self.used = run, m, d, hold, assign, used
        self.name = a["name"] if a else d["name"]
        self.edited = args is not None
        self.args = dict(args or {})
        self.set = {}           # changed parameters: dump of the value, or a callable
        self.log = []
        self.pages = None
        self.switched = False
        if d["name"] == "PagerAction":
            self.pages = [dict(p) for p in self.args.get("pages", [])]
        self.proxy = self.name.split(".")[0] if self.edited and d["name"] == "PagerAction.proxy" else None
        self.look(dialog)
        self.initial = {n: f["value"] for n, f in dialog["fields"].items()} if self.edited else {}

    def put(self, p, shown, want):
        """A parameter has been changed (back to what was shown first: it is as it was)"""
        label = title(p["name"])
        if self.initial and (self.initial[label] or "") == shown and type(shown) is str or label in self.initial and self.initial[label] is shown:
            self.set.pop(p["name"], None)
        else:
            self.set[p["name"]] = want

    def param(self, label):
        return next((p for p in self.d["parameters"] if title(p["name"]) == label), None)

    def look(self, dialog):
        self.dialog = dialog
        f = dialog["fields"]
        labels = {title(p["name"]) for p in self.d["parameters"]}
        expect(labels <= set(f), lambda: f"no fields for {labels - set(f)}")
        if "Hold" in f:
            expect(f["Hold"]["value"] == self.hold, lambda: f"hold is shown as {f['Hold']['value']}")
        expect(f["Assign"]["value"] == (self.assign or ""), lambda: f"assigned name is shown as {f['Assign']['value']}, it is {self.assign}")

    def run(self, changes, r):
        for c in changes:
            fn = getattr(self, "do_" + c[0])
            res = fn(*c[1:])
            if res is not None:
                self.r.rec.label("change " + (c[0] if c[0] != "pages" else "pages " + c[1]))
                self.r.quiet(res, f"{self.d['name']}: {self.log}")
                self.look(res["dialog"])
                r = res
        return r

    def call(self, op, **args):
        return self.r.e.call(op, **args)

    def fields(self):
        return [(p, title(p["name"]), self.dialog["fields"][title(p["name"])]) for p in self.d["parameters"] if p["type"] not in ("pages",)]

    def untouched(self, p):
        return dump(p["untouched"])

    def do_field(self, n, i):
        p, label, f = pick(self.fields(), n)
        t = p["type"]
        if f["type"] == "checkbox":
            v = not f["value"]
            want = dump(str(v))
        elif f["type"] == "select":
            if not f["options"]:
                return None
            v = pick(f["options"], i)
            want = dump(v)
        elif t == "text":
            v = pick(TEXTS + [""], i)
            want = dump(repr(v)) if v else self.untouched(p)
        elif f["type"] == "number":
            v = pick([str(i), "0", ""], i)
            want = dump(v) if v else self.untouched(p)
        elif t == "color":
            v = pick(["Colors.RED", "(1, 2, 3)", "_color", ""], i)
            want = dump(v) if v else self.untouched(p)
        else:
            v = pick(ANY + [""], i)
            want = dump(v) if v else self.untouched(p)
        if v == (f["value"] if f["value"] is not None else ""):
            return None
        self.put(p, v, want)
        self.log.append([label, v])
        return self.call("field", field=label, value=v)

    def do_option(self, n, i):
        fs = [x for x in self.fields() if x[2]["extra"]]
        if not fs:
            return None
        p, label, f = pick(fs, n)
        v = pick(f["extra"], i)
        self.log.append([label, "pick", v])
        if not v.startswith("Select"):
            self.put(p, v, dump(v))
        return self.call("option", field=label, value=v)

    def do_color(self, n, i):
        fs = [x for x in self.fields() if x[0]["type"] == "color"]
        if not fs:
            return None
        p, label, f = pick(fs, n)
        self.log.append([label, "color", i])
        v = f"({i >> 16}, {(i >> 8) & 255}, {i & 255})"
        self.put(p, v, dump(v))
        return self.call("color", field=label, value=f"#{i:06x}")

    def do_page(self, n):
        pages = self.dialog["pages"]
        names = [p["name"] for p in self.d["parameters"]]
        if not pages or "enable_callback" not in names or "id" not in names:
            return None
        text = pick(pages, n)[0]
        if [x[0] for x in pages].count(text) > 1:
            return None
        pagers = pagers_of(self.r.model)
        if text == "No Page":
            self.set["enable_callback"] = self.set["id"] = dump("None")
        else:
            raw = self.r.model
            found = []
            for e in raw.values():
                for k in ("actions", "actionsHold"):
                    for a in e[k]:
                        if a["name"] == "PagerAction" and a["assign"]:
                            for node in ast.parse(a["src"]["pages"], mode="eval").body.elts:
                                pg = {kk.value: vv for kk, vv in zip(node.keys, node.values)}
                                label = re.sub("[\"']", "", ast.get_source_segment(a["src"]["pages"], pg["text"])) if "text" in pg else ast.unparse(pg["id"])
                                label = label or ast.unparse(pg["id"])
                                found.append((label if len([1 for x in pagers]) == 1 else a["assign"] + "|" + label, a["assign"], dump(pg["id"])))
            hits = {x[1:] for x in found if x[0] == text}
            if len(hits) != 1:
                return None
            assign, pid = hits.pop()
            self.set["enable_callback"] = dump(assign + ".enable_callback")
            self.set["id"] = pid
        self.log.append(["page", text])
        res = self.call("click", what="page", text=text)
        sel = [x[0] for x in res["dialog"]["pages"] if x[1]]
        expect(sel == [text], lambda: f"page {text} chosen, {sel} marked")
        return res

    def do_hold(self, v):
        if "Hold" not in self.dialog["fields"]:
            return None
        self.hold = v
        self.log.append(["hold", v])
        return self.call("field", field="Hold", value=v)

    def do_assign(self, v):
        if self.used or self.d["name"] in ("PagerAction", "ENCODER_BUTTON"):
            return None
        if any(x[3]["assign"] == v for x in self.r.all_items()):
            return None
        self.assign = v or None
        self.log.append(["assign", v])
        return self.call("field", field="Assign", value=v)

    def do_more(self):
        return self.call("click", what="show-advanced") if any(not f["visible"] for f in self.dialog["fields"].values()) else None

    def do_switch(self, n):
        if self.assign or self.used or self.switched:
            return None
        have = bool(pagers_of(self.r.model))
        defs = [d for d in actions()[self.r.target[self.m]] if d["name"] not in ("PagerAction", "ENCODER_BUTTON") and (have or d["name"] != "PagerAction.proxy") and d["name"] != self.d["name"]]
        if not defs or self.d["name"].startswith("PagerAction"):
            return None
        d = pick(defs, n)
        before = self.dialog["fields"]
        old = {p["name"]: (p, before[title(p["name"])]) for p in self.d["parameters"]}
        res = self.call("click", what="entry", text=entry_name(d))
        self.r.quiet(res, f"switching to {d['name']}")
        self.switched = True
        self.d, self.name, self.args, self.edited, self.initial = d, d["name"], {}, False, {}
        if d["name"] == "PagerAction.proxy":
            self.proxy = None
        self.set = {}
        self.log.append(["switch", d["name"]])
        for p in d["parameters"]:
            if p["name"] in old and p["type"] != "text":
                q, f = old[p["name"]]
                v = f["value"]
                if f["type"] == "checkbox":
                    v = str(v)
                g = res["dialog"]["fields"][title(p["name"])]
                self.set[p["name"]] = self.untouched(p)
                if v not in (None, "") and v != q["default"]:
                    if g["type"] == "checkbox":
                        self.set[p["name"]] = dump(str(v == "True"))
                    elif g["type"] == "select":
                        self.set[p["name"]] = dump(v) if v in g["options"] else None
                    elif g["type"] == "number":
                        self.set[p["name"]] = dump(v) if re.fullmatch(r"-?\d+(\.\d+)?", v) else None
                    else:
                        self.set[p["name"]] = ("any", v)
        self.set = {k: (dump(v[1]) if isinstance(v, tuple) else v) for k, v in self.set.items()}
        return res

    def do_pages(self, what, i, n):
        if self.pages is None:
            return None
        f = self.dialog["fields"]["Pages"]["value"]
        expect([dump(x["id"]) for x in f] == [p["id"] for p in self.pages], lambda: f"pages {f} shown, they are {self.pages}")
        if what == "add":
            nums = [int(m.group()) for m in (re.match(r"\s*\d+", x["id"]) for x in f) if m]
            self.pages.append({"id": dump(str(max(nums) + 1 if nums else 1))})
            self.log.append(["add page"])
            return self.call("click", what="add-page")
        if not f:
            return None
        i %= len(f)
        if what == "remove":
            self.pages.pop(i)
            self.log.append(["remove page", i])
            return self.call("click", what="remove-page", index=i)
        if what == "id":
            v = pick(["7", "8", "'x'", "_id"], n)
            if any(x["id"] == v for x in f):
                return None
            self.pages[i]["id"] = dump(v)
        elif what == "color":
            v = pick(["Colors.BLUE", "(9, 8, 7)", ""], n)
            self.pages[i].pop("color", None)
            if v:
                self.pages[i]["color"] = dump(v)
        else:
            v = pick(TEXTS, n)
            self.pages[i]["text"] = dump(repr(v))
        self.log.append(["page", i, what, v])
        return self.call("pagefield", what=what, index=i, value=v)

    def refuse(self):
        """Left out: nothing a user would do"""
        f = self.dialog["fields"]
        if self.pages is not None and not self.pages:
            return True
        if self.d["name"] == "PagerAction.proxy" and f["Page Id"]["value"] in (None, ""):
            return True
        return False

    def result(self):
        d = self.d
        defaults = {p["name"]: dump(p["fixed"]) if p["fixed"] is not None else None for p in d["parameters"]}
        eff = {}
        f = self.dialog["fields"]
        for p in d["parameters"]:
            n = p["name"]
            if n == "pages":
                eff[n] = self.pages
                continue
            if p["type"] == "select-page" and n not in self.set:
                v = f[title(n)]["value"]
                eff[n] = self.args.get(n) if self.edited and n in self.args else dump(v if v is not None else "None")
                continue
            if n in self.set:
                if self.set[n] is not None:
                    eff[n] = self.set[n]
            elif self.edited:
                eff[n] = self.args.get(n, defaults[n])
            else:
                eff[n] = self.untouched(p)
        name = self.name
        if d["name"] == "PagerAction.proxy":
            if not self.proxy:
                self.proxy = f["Pager"]["value"]
            name = self.proxy + ".proxy"
        return {"name": name, "assign": self.assign, "eff": eff, "defaults": defaults, "all": set(defaults)}


def run_history(case, rec):
    r = Run(case, rec)
    for op in case["ops"]:
        rec.label(op[0])
        getattr(r, op[0])(*op[1:])
    rec.nontrivial_if(r.changed >= 2 and r.applied >= 1)


TESTS = [Test("histories", histories, run_history, quick=600, thorough=60000)]
