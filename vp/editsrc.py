"""Independent reading of configuration sources (by the ast module of Python, the editor uses libcst) and
generators for sources a user could have written."""
import ast
import builtins
import os

from hypothesis import strategies as st

from . import shipped
from .app import expect
from .kit import Violation
from .world import CONTENT, REPO

PREFIX = "PA_MIDICAPTAIN"
BOUNDS = ["x", "y", "w", "h"]


def parse(src, what="source"):
    try:
        return ast.parse(src)
    except SyntaxError as e:
        raise Violation(f"{what} written by the editor is no valid Python ({e}):\n{src}")


class _Norm(ast.NodeTransformer):
    # DisplayBounds arguments are named by the editor, the meaning is the same
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "DisplayBounds":
            node.keywords = [ast.keyword(arg=n, value=v) for n, v in zip(BOUNDS, node.args)] + node.keywords
            node.args = []
        return node


def dump(node):
    """Comparable form of a piece of code (string or node)"""
    if isinstance(node, str):
        try:
            node = ast.parse("(" + node.strip() + "\n)", mode="eval").body
        except SyntaxError:
            raise Violation(f"the editor delivers an invalid expression: {node}")
    return ast.dump(_Norm().visit(ast.parse(ast.unparse(node))))


def is_import(s):
    return isinstance(s, (ast.Import, ast.ImportFrom))


def names_used(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
    return out


def imports(tree):
    """{name: (module, original name)} of the module level imports, in order; star imports as a list"""
    names, stars = {}, []
    for s in tree.body:
        if isinstance(s, ast.ImportFrom):
            for a in s.names:
                if a.name == "*":
                    stars.append(s.module)
                else:
                    names[a.asname or a.name] = (s.module, a.name)
        elif isinstance(s, ast.Import):
            for a in s.names:
                names[a.asname or a.name.split(".")[0]] = (a.name, None)
    return names, stars


def body(src, what="source"):
    return [dump(s) for s in parse(src, what).body if not is_import(s)]


def used_imports(src):
    """The imports that are used by the code: what has to survive"""
    tree = parse(src)
    names, stars = imports(tree)
    used = names_used(s for s in tree.body if not is_import(s))
    return {n: names[n] for n in names if n in used}, stars


def unresolved(src, what="source"):
    """Names used at module level without being bound before"""
    missing = set()
    tree = parse(src, what)
    bound = set(dir(builtins))
    star = False

    def targets(s):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                yield x.id
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                yield x.name
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    yield a.asname or a.name.split(".")[0]
            elif isinstance(x, ast.arg):
                yield x.arg

    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and s.names[0].name == "*":
            star = True
            continue
        if isinstance(s, ast.FunctionDef):
            bound.add(s.name)
            continue
        own = set(targets(s)) if not isinstance(s, ast.Assign) else {x.arg for x in ast.walk(s) if isinstance(x, ast.arg)} | {
            x.id for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        for n in sorted(names_used([s])):
            if n in bound or n in own or (star and n.startswith(PREFIX)):
                continue
            missing.add(n)
        bound.update(targets(s))
    return missing


def segments(src, skip=()):
    """Text of all module level statements which are no imports, with the comments above, except assignments to names in skip"""
    lines = src.split("\n")
    tree = ast.parse(src)
    out = []
    for s in tree.body:
        if is_import(s):
            continue
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in skip for t in s.targets):
            continue
        first = s.lineno - 1
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.decorator_list:
            first = s.decorator_list[0].lineno - 1
        while first > 0 and lines[first - 1].startswith("#"):
            first -= 1
        out.append("\n".join(lines[first:s.end_lineno]))
    return out


def assignments(tree):
    out = {}
    for s in tree.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name) and t.id not in out:
                    out[t.id] = s.value
    return out


def reachable(src, root):
    """Names of all assigned values the given one refers to"""
    env = assignments(ast.parse(src))
    out, todo = set(), [root]
    while todo:
        n = todo.pop()
        if n in out or n not in env:
            continue
        out.add(n)
        todo += names_used([env[n]])
    return out


class Config:
    """What an inputs.py file says: every input with its actions; helper assignments"""

    def __init__(self, src, what="inputs.py"):
        tree = parse(src, what)
        self.env = {n: v for n, v in assignments(tree).items()}
        names, _ = imports(tree)
        self.imports = names
        inputs = self.env.pop("Inputs")
        expect(isinstance(inputs, ast.List), lambda: f"Inputs is no list: {src}")
        self.inputs = []
        self.nodes = []     # all actions
        for e in inputs.elts:
            assign = None
            if isinstance(e, ast.Name) and e.id in self.env:
                assign, e = e.id, self.env[e.id]
            expect(isinstance(e, ast.Dict), lambda: f"input is no dict: {ast.unparse(e)}")
            entry = {"$assign": assign}
            for k, v in zip(e.keys, e.values):
                entry[k.value] = self._value(k.value, v)
            self.inputs.append(entry)
        for e in self.inputs:
            if e["$assign"]:
                self.env.pop(e["$assign"], None)

    def _value(self, key, v):
        if key in ("actions", "actionsHold") and isinstance(v, ast.List):
            return [self.item(x) for x in v.elts]
        return dump(v)

    def item(self, x):
        self.nodes.append(x)
        return ["name", x.id] if isinstance(x, ast.Name) and x.id in self.env else ["expr", dump(x)]

    def comparable(self):
        return {"inputs": self.inputs, "helpers": {n: v if isinstance(v, str) else dump(v) for n, v in sorted(self.env.items())}}

    def input(self, assignment):
        for e in self.inputs:
            if e.get("assignment") == dump(assignment):
                return e
        return None


def call_source(action):
    """Python code for an action as handed over to ParserInput.setActions"""
    def value(arg):
        if action["name"] == "PagerAction" and arg["name"] == "pages":
            return "[" + ", ".join("{" + ", ".join(f'"{k}": {p[k]}' for k in ("id", "color", "text") if p.get(k)) + "}" for p in arg["value"]) + "]"
        return arg["value"]
    return action["name"] + "(" + ", ".join((f"{a['name']} = " if a.get("name") else "") + value(a) for a in action["arguments"]) + ")"


def shipped_sources():
    out = []
    for name, path in shipped.folders():
        path = path or CONTENT
        try:
            out.append((name, open(os.path.join(path, "inputs.py")).read(), open(os.path.join(path, "display.py")).read()))
        except FileNotFoundError:
            pass
    return out


# -- generators ----------------------------------------------------------------------------------------------

NAMES = {"nano_4": ["PA_MIDICAPTAIN_NANO_SWITCH_1", "PA_MIDICAPTAIN_NANO_SWITCH_2", "PA_MIDICAPTAIN_NANO_SWITCH_A", "PA_MIDICAPTAIN_NANO_SWITCH_B"],
         "mini_6": ["PA_MIDICAPTAIN_MINI_SWITCH_" + x for x in ("1", "2", "3", "A", "B", "C")],
         "10": ["PA_MIDICAPTAIN_10_" + x for x in ("SWITCH_1", "SWITCH_2", "SWITCH_3", "SWITCH_4", "SWITCH_A", "SWITCH_B", "SWITCH_UP", "SWITCH_DOWN",
                "WHEEL_BUTTON", "WHEEL_ENCODER", "EXP_PEDAL_1", "EXP_PEDAL_2")]}

ATOMS = ["0", "1", "-1", "0x1f", "1.5", "-0.25", "1e3", "True", "False", "None", '"text"', "'text'", '"it\'s"', "'say \"x\"'", '"a\\nb"', '"\\u00e4"', '"\u00e4\u20ac"',
         '"# no comment"', '"[{("', "'{bpm} bpm'", "''", 'r"\\d"', 'b"x"', '"""multi\n   line"""', "Colors.RED", "(1, 2, 3)", "(0, 0, 0)", "()", "(1,)", "[]", "{}", "3 * 4 + 1",
         "-(2)", "value != None", "1 if True else 2", "not False", "lambda x: x + 1", "lambda action, pressed = 1: None", "[i for i in range(3)]", "f'{1}'", '"a" "b"',
         "Keycode.A", "KemperEffectSlot.EFFECT_SLOT_ID_A", "PushButtonAction.LATCH", "some.object[1].attr", "foo(1)[2]", "{1, 2}", "(Colors.RED, Colors.BLUE)",
         "(\n        1,\n        2\n    )", '"a"\n        "b"', "1 +\n        2", "sum(i for i in range(2))", "(  # remark\n        5)", "range", "len"]

MAPS = ["MAPPING_RIG_NAME()", "MAPPING_EFFECT_STATE(KemperEffectSlot.EFFECT_SLOT_ID_A)", "MAPPING_EFFECT_STATE(\n    slot_id = KemperEffectSlot.EFFECT_SLOT_ID_DLY\n)", "MAPPING_TUNER_MODE_STATE()"]

ACTION_NAMES = ["RIG_SELECT", "RIG_UP", "BANK_UP", "EFFECT_STATE", "TUNER_MODE", "BINARY_SWITCH", "CUSTOM_MESSAGE", "TAP_TEMPO", "ENCODER_BUTTON", "EncoderAction", "AnalogAction",
                "MORPH_BUTTON", "OWN_ACTION", "my.module.ACTION", "PushButtonAction"]
ARGS = ["display", "text", "id", "color", "rig", "bank", "mapping", "enable_callback", "use_leds", "num_leds", "message", "values", "slot_id", "some"]
DISPLAYS = ["DISPLAY_HEADER_1", "DISPLAY_HEADER_2", "DISPLAY_FOOTER_1"]

# Code users put next to the definitions
EXTRA = ["# A remark", "#no space", "def helper(a, b = 2):\n    # inside\n    return a + b", "class Own(PushButtonAction):\n    \"\"\"Doc\"\"\"\n    def push(self):\n        pass    # nothing",
         "if True:\n    _flag = 1\nelse:\n    _flag = 2", "_number = 4", "_list = [1, 2,\n         3]", "_a, _b = 1, 2", "print('loaded')", "_dict = {'x': 1, 2: 'y'}\n_dict['z'] = 3",
         "for _i in range(3):\n    pass", "try:\n    import foo\nexcept ImportError:\n    foo = None\n_has_foo = foo is not None", "_text = 'Mein Text' # mit Bemerkung", "_typed: int = 3", '"""Docstring"""',
         "@staticmethod\ndef decorated():\n    return None", "_fun = lambda x: [x]", "_long = 1 + \\\n    2", "def noisy(action): print(action)"]

OWN_IMPORTS = ["import time", "import math as m", "from own import OWN_ACTION", "from own import TUNER_MODE", "from own.sub import (\n    OWN_ACTION,  # remark\n    something as MORPH_BUTTON\n)", "import my.module",
               "from pyswitch.clients.kemper.actions.rig_select import RIG_SELECT, RIG_SELECT_DISPLAY_TARGET_RIG", "from pyswitch.colors import Colors",
               "from pyswitch.clients.kemper import KemperEffectSlot", "from display import DISPLAY_HEADER_1, DISPLAY_HEADER_2, DISPLAY_FOOTER_1"]


@st.composite
def value(draw, names=(), depth=2, maps=True):
    """Source of one argument value"""
    kind = draw(st.integers(0, 9))
    if depth > 0 and kind == 0:
        items = [draw(value(names, depth - 1)) for _ in range(draw(st.integers(0, 3)))]
        return "[" + ", ".join(items) + (", " if items and draw(st.booleans()) else "") + "]"
    if depth > 0 and kind == 1:
        out = []
        for _ in range(draw(st.integers(0, 3))):
            key = draw(st.sampled_from(["a", "font", "b c", "x\\\"y", "0", "\u00e4", "it's"]))
            q = '"' if "'" in key or "\\" in key else draw(st.sampled_from(['"', '"', "'"]))
            out.append(f"{q}{key}{q}: " + draw(value(names, depth - 1)))
        if draw(st.integers(0, 5)) == 0:
            out.append(draw(st.sampled_from(["1: 2", "(1, 2): 3", "None: 4", "Colors.RED: 1", "'a' 'b': 2", "**{}"])))
        # same key twice is possible in Python, but nothing anyone writes
        keys = [o.split(":")[0].strip("\"'") for o in out]
        out = [o for i, o in enumerate(out) if keys[i] not in keys[:i]]
        return "{" + draw(st.sampled_from([", ", ",\n        "])).join(out) + (",}" if out and draw(st.booleans()) else "}")
    if depth > 0 and kind == 2:
        return draw(call(names, depth - 1))
    if names and kind in (3, 4):
        return draw(st.sampled_from(sorted(names)))
    if maps and kind == 5:
        return draw(st.sampled_from(MAPS))
    if kind == 6:
        return draw(st.sampled_from(DISPLAYS))
    return draw(st.sampled_from(ATOMS))


@st.composite
def arguments(draw, names=(), depth=2, positional=True):
    out = []
    if positional and draw(st.integers(0, 4)) == 0:
        out.append([None, draw(value(names, depth))])
    for k in draw(st.lists(st.sampled_from(ARGS), max_size=4, unique=True)):
        out.append([k, draw(value(names, depth))])
    return out


def _text(draw, args):
    eq = draw(st.sampled_from([" = ", "=", " =  "]))
    style = draw(st.integers(0, 2))
    parts = [(k + eq if k else "") + v for k, v in args]
    if not parts:
        return "()"
    if style == 0:
        return "(" + ", ".join(parts) + (",)" if len(parts) > 1 and draw(st.booleans()) else ")")
    sep = ",   # remark\n        " if style == 1 and draw(st.booleans()) else ",\n        "
    return "(\n        " + sep.join(parts) + "\n    )"


@st.composite
def call(draw, names=(), depth=2, function=None):
    fn = function or draw(st.sampled_from(ACTION_NAMES))
    args = draw(arguments(names, depth))
    src = fn + _text(draw, args)
    if draw(st.integers(0, 19)) == 0:
        src = src[:-1].rstrip() + (", " if args and not src[:-1].rstrip().endswith(",") else "") + draw(st.sampled_from(["*[1]", "**{'k': 1}"])) + ")"
    return src


@st.composite
def inputs_source(draw):
    """A complete inputs.py in a user's own style. Returns (source, device)"""
    device = draw(st.sampled_from(sorted(NAMES)))
    imports_ = draw(st.lists(st.sampled_from(OWN_IMPORTS), max_size=4, unique=True))
    # one source per name only
    bound, keep = set(), []
    for i in imports_:
        names = set(imports(ast.parse(i))[0])
        if not names & bound:
            keep.append(i)
            bound |= names
    star = f"from pyswitch.hardware.devices.pa_midicaptain_{device} import *"
    head = draw(st.sampled_from(["", "# My configuration\n", "#!python\n# -*- coding: utf-8 -*-\n\n", '"""Doc"""\n']))
    lines = draw(st.permutations([star] + keep))

    helpers = []
    names = []
    calls = []
    for i in range(draw(st.integers(0, 4))):
        kind = draw(st.integers(0, 4))
        n = f"_h{i}"
        if kind == 0:
            v = draw(call(names, 1, draw(st.sampled_from(["ENCODER_BUTTON", "RIG_UP", "OWN_ACTION"]))))
            more = draw(st.booleans())
            if draw(st.integers(0, 3)) == 0:
                # Local variables of the same name
                helpers.append(draw(st.sampled_from(["def own{i}(a):\n    {n} = a + 1\n    return {n}", "class Own{i}:\n    {n} = 1", "def own{i}():\n    Inputs = [1]\n    {n} = {{\"assignment\": 1}}; return Inputs"])).format(i=i, n=n))
            helpers.append(f"{n} = {n}b = {v}" if more else f"{n} = {v}")
            calls += [n, n + "b"] if more else [n]
            names += [n, n + "b"] if more else [n]
        elif kind == 1:
            v = draw(value(names, 1))
            if v in names:
                v = f"[{v}]"    # assignments of assignments get a value of their own (see CodeGenerator)
            try:
                ast.parse(f"{n} = {v}")
            except SyntaxError:
                v = f"({v})"    # more than one line
            helpers.append(f"{n} = {v}")
            names.append(n)
        else:
            helpers.append(draw(st.sampled_from(EXTRA)))
    if len(set(h.split("\n")[0] for h in helpers)) < len(helpers):
        helpers = list(dict.fromkeys(helpers))

    pager = draw(st.integers(0, 3)) == 0
    if pager:
        pages = "[" + ", ".join("{" + f'"id": {i + 1}, "color": Colors.RED, "text": "P{i}"' + "}" for i in range(draw(st.integers(1, 3)))) + "]"
        helpers.append(f"_pager = PagerAction(pages = {pages}, use_leds = True)")

    entries = []
    used = draw(st.lists(st.sampled_from(NAMES[device]), max_size=4, unique=True))
    for a in used:
        q = draw(st.sampled_from(['"', '"', "'"]))
        parts = [f"{q}assignment{q}: {a}"]
        for key in ("actions", "actionsHold"):
            if key == "actionsHold" and draw(st.integers(0, 2)):
                continue
            acts = []
            for _ in range(draw(st.integers(0, 3))):
                k = draw(st.integers(0, 7))
                if k in (0, 7) and calls:
                    acts.append(draw(st.sampled_from(calls)))
                elif k == 1 and pager:
                    acts.append("_pager")
                elif k == 2 and pager:
                    acts.append("_pager.proxy(page_id = 1)")
                elif k == 3 and pager:
                    acts.append("RIG_SELECT(rig = 1, id = 1, enable_callback = _pager.enable_callback)")
                elif k == 4:
                    acts.append("None")
                else:
                    acts.append(draw(call(names)))
            sep = draw(st.sampled_from([", ", ",\n            ", ",  # next\n            "]))
            parts.append(f"{q}{key}{q}: [" + ("\n            " if "\n" in sep else "") + sep.join(acts) + ("," if acts and draw(st.booleans()) else "") + ("\n        " if "#" in sep else "") + "]")
        if draw(st.integers(0, 3)) == 0:
            parts.append(f"{q}holdTimeMillis{q}: " + str(draw(st.integers(1, 3000))))
        if draw(st.integers(0, 3)) == 0:
            parts.append(f"{q}holdRepeat{q}: " + draw(st.sampled_from(["True", "False"])))
        parts = draw(st.permutations(parts))
        comment = draw(st.sampled_from(["", "# Switch\n    "]))
        entry = "{\n        " + ",\n\n        ".join(parts) + draw(st.sampled_from(["\n    }", ",\n    }"]))
        if draw(st.integers(0, 9)) == 0:
            n = f"_input{len(entries)}"
            helpers.append(f"{n} = {entry}")
            entry = n
        entries.append(comment + entry)
    body_ = "Inputs = [" + ("\n    " if entries else "") + ",\n    ".join(entries) + ("\n" if entries else "") + "]"
    tail = draw(st.sampled_from(["", "# The end\n", "\n\n_unused = 1\n"]))
    gap = draw(st.sampled_from(["\n", "\n\n", "\n# -----\n\n"]))
    return head + "\n".join(lines) + gap + gap.join(helpers + [body_]) + "\n" + tail, device


@st.composite
def display_source(draw):
    helpers = ["_W = const(240)", "_LAYOUT = {\n    \"font\": \"/fonts/H20.pcf\",\n    \"backColor\": DEFAULT_LABEL_COLOR,\n    'stroke': 1\n}"]
    head = "from micropython import const\nfrom pyswitch.colors import DEFAULT_LABEL_COLOR\nfrom pyswitch.ui.ui import DisplayElement, DisplayBounds\nfrom pyswitch.ui.elements import DisplayLabel"
    labels = []
    for n in DISPLAYS:
        b = draw(st.sampled_from(["DisplayBounds(0, 0, 120, 40)", "DisplayBounds(_W, y = 3, w = 10, h = 4)", "DisplayBounds(\n        x = 0, \n        y = 0, \n        w = _W,\n        h = 40\n    )"]))
        lay = draw(st.sampled_from(["_LAYOUT", '{"font": "/fonts/A12.pcf", "text": "x # y"}', "{'font': '/fonts/A12.pcf',}"]))
        cb = draw(st.sampled_from(["", ", callback = KemperRigNameCallback(show_name = True)", ", scale = 2"]))
        labels.append(f"{n} = DisplayLabel(layout = {lay}, bounds = {b}{cb})")
    mine = draw(st.lists(st.sampled_from(EXTRA), max_size=3, unique=True))
    children = draw(st.lists(st.sampled_from(DISPLAYS + ["DisplayLabel(layout = _LAYOUT, bounds = DisplayBounds(0, 80, _W, 20))", "BidirectionalProtocolState(DisplayBounds(0, 0, 240, 4))"]),
                             max_size=5, unique=True))
    el = "DisplayElement(bounds = DisplayBounds(0, 0, _W, 240), children = [\n    " + ",\n    ".join(children) + "\n])"
    kind = draw(st.integers(0, 2))
    splashes = {0: el, 1: f"TunerDisplayCallback(splash_default = {el}, strobe = True)",
                2: f"SplashesCallback(\n    splashes = {el}   # main\n)"}[kind]
    if draw(st.booleans()):
        head += "\nfrom pyswitch.clients.kemper import KemperRigNameCallback, TunerDisplayCallback"
    gap = draw(st.sampled_from(["\n", "\n\n"]))
    return head + "\n" + gap.join(helpers + draw(st.permutations(labels + mine))) + gap + "Splashes = " + splashes + "\n"


def sources():
    """Index of a shipped configuration, or generated files"""
    n = len(shipped_sources())
    own = st.tuples(inputs_source(), display_source()).map(lambda t: {"inputs": t[0][0], "display": t[1]})
    return st.one_of(st.integers(0, n - 1).map(lambda i: {"shipped": i}), own, own, own)


_shipped = None


def load(case):
    global _shipped
    if "shipped" in case:
        if _shipped is None:
            _shipped = shipped_sources()
        _, i, d = _shipped[case["shipped"] % len(_shipped)]
        return {"inputs_py": i, "display_py": d}
    return {"inputs_py": case["inputs"], "display_py": case["display"]}
