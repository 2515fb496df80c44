"""C43: edits do what they say"""
import ast
import copy

from hypothesis import strategies as st

from ..app import expect
from ..editor import editor
from ..editsrc import (DISPLAYS, NAMES, Config, assignments, body, call_source, display_source, dump, inputs_source, load, segments, reachable, shipped_sources, unresolved)
from ..kit import Test, Violation
from .c42_keep import check_action

ID = "C43"
SCALE = 1
RULE = ("histories of 1 to 4 edits in the editor (add, remove, reorder, replace and move actions to another switch or to the hold actions, parameters of new actions, hold time, hold repeat, new inputs, pagers, "
        "display labels, replaced source) on shipped and generated configurations; after each one the written sources are compared with a model which is edited the same way. Non-trivial: at least two edits, "
        "one of which changes the actions of an input")
TECHNIQUE = "property-based testing (Hypothesis), model-based: histories of edits against a model of the configuration, read back by an independent reader (ast)"

TEXTS = ['"Text"', '"it\'s"', "'say \"x\"'", '"# no"', '""', '"\u00e4\u20ac"', '"{bpm}"', "'[('", '"back\\\\slash"']
FREE = ["0", "1", "-1", "0.25", "[1, 2, 3]", "(0, 0, 0)", "((255, 0, 0), (0, 255, 0))", "None", "False", "Colors.RED", "(Colors.RED, Colors.BLUE)", '"off"', "'auto'", "[[240, 1, 247], [1]]",
        "MAPPING_PLACEHOLDER", "PushButtonAction.LATCH", "{1: 2}", "[]", "2 * 3"]

_offered = None


def offered():
    """What the editor offers, in a fixed configuration (labels and assigned actions are offered, too)"""
    global _offered
    if _offered is None:
        editor().call("open", files=load({"shipped": 0}))
        _offered = editor().call("offered")
    return _offered


def new_action(spec, pagers):
    """Action definition as built by the editor's dialogs"""
    off = offered()
    o = off[spec["name"] % len(off)]
    name = o["name"]
    assign = None
    args = []
    for i, p in enumerate(o["parameters"]):
        n, pick = p["name"], spec["values"][i % len(spec["values"])] if spec["values"] else 0
        if n == "pages":
            args.append({"name": n, "value": [{"id": str(j + 1), "color": "Colors.RED" if pick & (1 << j) else None, "text": TEXTS[pick % len(TEXTS)] if j % 2 else None} for j in range(spec["pages"])]})
            continue
        if p["fixed"] is not None and pick % 3 == 0:
            continue        # the dialog leaves defaults out
        values = p["values"]
        if n in ("enable_callback", "accept_action", "cancel_action"):
            continue
        if p["type"] == "text":
            v = TEXTS[pick % len(TEXTS)]
        elif n == "display":
            v = DISPLAYS[pick % 3]
        elif isinstance(values, list) and values and "display" not in n:
            v = str(values[pick % len(values)]["value"])
        elif p["type"] == "bool":
            v = "True" if pick & 1 else "False"
        elif p["type"] == "int":
            v = str(1 + pick % 20)
        elif "display" in n:
            v = DISPLAYS[pick % 3]
        else:
            v = FREE[pick % len(FREE)].replace("MAPPING_PLACEHOLDER", "KemperMappings.RIG_NAME()")
        args.append({"name": n, "value": v})
    if name == "PagerAction":
        assign = f"_new_pager{len(pagers)}"
    if name.endswith(".proxy"):
        if not pagers:
            name = "RIG_SELECT"
            args = [{"name": "rig", "value": "1"}]
        else:
            name = pagers[spec["page"] % len(pagers)] + ".proxy"
    elif spec["page"] and pagers and any(p["name"] == "enable_callback" for p in o["parameters"]) and not assign:
        args = [a for a in args if a["name"] != "id"]
        args += [{"name": "id", "value": str(spec["page"])}, {"name": "enable_callback", "value": pagers[spec["page"] % len(pagers)] + ".enable_callback"}]
    return {"name": name, "assign": assign, "arguments": args}


class Model:
    """The configuration the user has in mind"""

    def __init__(self, files):
        self.load(files)

    def load(self, files):
        cfg = Config(files["inputs_py"])
        self.inputs, self.env = cfg.inputs, {n: dump(v) for n, v in cfg.env.items()}
        # Names of the same object
        self.same = {n: [o for o, w in cfg.env.items() if w is v] for n, v in cfg.env.items()}
        self.display = files["display_py"]

    def comparable(self):
        return {"inputs": self.inputs, "helpers": dict(sorted(self.env.items()))}

    def input(self, name, create=True):
        for e in self.inputs:
            if e.get("assignment") == dump(name):
                return e
        if create:
            e = {"$assign": None, "assignment": dump(name)}
            self.inputs.append(e)
            return e
        return None

    def set(self, name, actions, hold):
        e = self.input(name)
        out = []
        for a in actions:
            src = dump(call_source(a))
            if a["assign"]:
                for n in self.same.get(a["assign"], [a["assign"]]):
                    self.env[n] = src
                out.append(["name", a["assign"]])
            else:
                out.append(["expr", src])
        e["actionsHold" if hold else "actions"] = out


def without_none(comparable):
    """None entries of action lists mean nothing and get lost when the list is edited"""
    c = copy.deepcopy(comparable)
    for e in c["inputs"]:
        for k in ("actions", "actionsHold"):
            if isinstance(e.get(k), list):
                e[k] = [x for x in e[k] if x != ["expr", dump("None")]]
    return c


def compare(m, files, old, what):
    now = without_none(Config(files["inputs_py"]).comparable())
    want = without_none(m.comparable())
    for k in ("inputs", "helpers"):
        if now[k] != want[k]:
            if k == "helpers":
                diff = [(n, want[k].get(n), now[k].get(n)) for n in sorted(set(want[k]) | set(now[k])) if want[k].get(n) != now[k].get(n)][:1]
            else:
                diff = [(a, b) for a, b in zip(want[k] + [None] * len(now[k]), now[k] + [None] * len(want[k])) if a != b][:1]
            raise Violation(f"{what}: {k} differ from what was edited, (expected, written) {diff}:\n--- before:\n{old['inputs_py']}\n--- after:\n{files['inputs_py']}")
    for k in ("inputs_py", "display_py"):
        # Labels which do not exist are not offered
        miss = unresolved(files[k], k) - unresolved(old[k]) - (set(DISPLAYS) - set(assignments(ast.parse(m.display))))
        expect(not miss, lambda: f"{what}: undefined names {miss} in {k}\n--- before:\n{old[k]}\n--- after:\n{files[k]}")
    for k, root in (("inputs_py", "Inputs"), ("display_py", "Splashes")):
        for s in segments(old[k], reachable(old[k], root)):
            expect(s in files[k], lambda: f"{what} changed code that was not edited in {k}:\n{s}\n--- before:\n{old[k]}\n--- after:\n{files[k]}")
    expect(body(files["display_py"]) == body(m.display), lambda: f"{what}: display.py differs from what was edited:\n--- expected:\n{m.display}\n--- after:\n{files['display_py']}")


def readable(src, name):
    """The editor cannot show unpacked arguments of actions"""
    cfg = Config(src)
    entry = cfg.input(name)
    if entry is None:
        return True
    for kind, x in entry.get("actions", []) + entry.get("actionsHold", []):
        c = cfg.env[x] if kind == "name" else None
        if c is None:
            c = [n for n in cfg.nodes if dump(n) == x][0]
        if isinstance(c, ast.Call) and (any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords)):
            return False
    return True


def same_actions(got, actions, where):
    expect(len(got) == len(actions), lambda: f"{where}: {len(got)} actions shown after setting {len(actions)}")
    for g, a in zip(got, actions):
        def plain(x):
            return [x["name"], x["assign"] or None, [[b["name"], [[dump(p[n]) if p.get(n) else None for n in ("id", "color", "text")] for p in b["value"]] if isinstance(b["value"], list) else dump(b["value"])]
                                                     for b in x["arguments"]]]
        expect(plain(g) == plain(a), lambda: f"{where}: the editor shows {plain(g)} after setting {plain(a)}")


def run_history(case, rec):
    offered()
    files = load(case)
    e = editor()
    hw = e.call("open", files=files)
    m = Model(files)
    edits = 0
    for no, op in enumerate(case["ops"]):
        kind = op["op"]
        i = op.get("input", 0)
        used = [h for h in hw if m.input(h[1], False)]
        model, name, _ = (used if used and i % 8 else hw)[i // 8 % len(used if used and i % 8 else hw)]
        what = f"edit {no + 1} ({kind} {name})"
        old = files
        shown = None
        if kind == "set":
            if not readable(old["inputs_py"], name):
                rec.label("skipped")
                continue
            hold = op["hold"]
            got = e.call("read", input=model)
            have = got["actionsHold" if hold else "actions"] if got else []
            pagers = [n for n in m.env if m.env[n].startswith(dump("PagerAction()")[:60].split("args")[0])]
            keep = [have[i % len(have)] for i in op["keep"]] if have else []
            actions, seen = [], set()
            for a in keep:
                if (a["assign"] or id(a)) in seen:
                    continue
                seen.add(a["assign"] or id(a))
                actions.append({"name": a["name"], "assign": a["assign"], "arguments": copy.deepcopy(a["arguments"])})
            for i, spec in op["new"]:
                a = new_action(spec, pagers)
                actions.insert(i % (len(actions) + 1), a)
                if a["assign"]:
                    pagers.append(a["assign"])
            change = op.get("change")
            if change and actions:
                a = actions[change[0] % len(actions)]
                if a["arguments"]:
                    b = a["arguments"][change[1] % len(a["arguments"])]
                    if not isinstance(b["value"], list):
                        b["value"] = TEXTS[change[2] % len(TEXTS)]
            create = got is None
            if create:
                rec.label("new input")
            shown = e.call("set", input=model, actions=actions, hold=hold, create=True, keep=True, reread=True)
            m.set(name, actions, hold)
            rec.label("actions set", len(actions))
            edits += 1
        elif kind == "time":
            if m.input(name, False) is None:
                continue
            e.call("holdTime", input=model, value=op["value"])
            m.input(name)["holdTimeMillis"] = dump(str(op["value"]))
        elif kind == "repeat":
            if m.input(name, False) is None:
                continue
            e.call("holdRepeat", input=model, value=op["value"])
            m.input(name)["holdRepeat"] = dump(str(op["value"]))
        elif kind == "reopen":
            e.call("open", files=files)
        elif kind == "source":
            hw_old = hw
            files = {"inputs_py": op["inputs"], "display_py": files["display_py"]}
            e.call("source", file="inputs_py", code=op["inputs"])
            now = e.call("files")
            expect(now == files, lambda: f"{what}: the source code set by the user is changed:\n{now}")
            disp = m.display
            m.load(files)
            m.display = disp
            hw = e.call("hardware")
            check_read(e, hw, files, what)
            rec.label("source")
            continue
        elif kind == "bounds":
            tree = e.call("splashes")
            labels = set()
            found = find_labels(tree, labels)
            if not found:
                continue
            node = found[op["label"] % len(found)]
            arg = "xywh"[op["arg"] % 4]
            if not set_bounds(tree, node["assign"], arg, op["value"]):
                continue
            edited = display_bounds(m.display, node["assign"], arg, op["value"])
            if edited is None:
                continue
            m.display = edited
            e.call("setSplashes", splashes=tree)
            rec.label("bounds")
        files = e.call("files")
        compare(m, files, old, what)
        if kind == "set":
            if shown is not None:
                same_actions(shown["actionsHold" if op["hold"] else "actions"], actions, what + ", same handle")
            again = e.call("read", input=model)
            same_actions(again["actionsHold" if op["hold"] else "actions"], actions, what)
        rec.label(kind)
    check_read(e, hw, files, "at the end")
    rec.nontrivial_if(len(case["ops"]) > 1 and edits > 0)


def find_labels(node, out_names, out=None):
    out = [] if out is None else out
    if isinstance(node, list):
        for n in node:
            find_labels(n, out_names, out)
    elif isinstance(node, dict):
        if node.get("name") == "DisplayLabel" and node.get("assign") and node["assign"] not in out_names:
            out_names.add(node["assign"])
            out.append(node)
        for k in ("arguments", "value"):
            if node.get(k):
                find_labels(node[k], out_names, out)
    return out


def set_bounds(node, assign, arg, value):
    """Like the display editor: changes the bounds of a label in the tree, wherever it is used"""
    done = False
    if isinstance(node, list):
        for n in node:
            done |= set_bounds(n, assign, arg, value)
    elif isinstance(node, dict):
        if node.get("assign") == assign and node.get("name") == "DisplayLabel":
            for a in node["arguments"]:
                if a.get("name") == "bounds" and isinstance(a["value"], dict) and a["value"].get("name") == "DisplayBounds" and not a["value"].get("assign"):
                    for b in a["value"]["arguments"]:
                        if b.get("name") == arg:
                            b["value"] = str(value)
                            done = True
        for k in ("arguments", "value"):
            if node.get(k):
                done |= set_bounds(node[k], assign, arg, value)
    return done


def display_bounds(src, assign, arg, value):
    tree = ast.parse(src)
    for s in tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == assign for t in s.targets):
            for k in s.value.keywords:
                if k.arg == "bounds" and isinstance(k.value, ast.Call):
                    c = k.value
                    c.keywords = [ast.keyword(arg=n, value=v) for n, v in zip("xywh", c.args)] + c.keywords
                    c.args = []
                    for kk in c.keywords:
                        if kk.arg == arg:
                            kk.value = ast.parse(str(value), mode="eval").body
                            return ast.unparse(ast.fix_missing_locations(tree))
    return None


def check_read(e, hw, files, what):
    cfg = Config(files["inputs_py"])
    tree = ast.parse(files["inputs_py"])
    env = {t.id: s.value for s in tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
    nodes = {}
    for el in env["Inputs"].elts:
        d = env[el.id] if isinstance(el, ast.Name) else el
        keys = {k.value: v for k, v in zip(d.keys, d.values)}
        nodes.setdefault(keys["assignment"].id, keys)
    for model, name, _ in hw:
        got = e.call("read", input=model)
        expect((got is not None) == (name in nodes), lambda: f"{what}: input {name} shown: {got}, configured: {name in nodes}")
        if got is None:
            continue
        for key in ("actions", "actionsHold"):
            want = [x for x in nodes[name][key].elts if not (isinstance(x, ast.Constant) and x.value is None)] if key in nodes[name] else []
            expect(len(want) == len(got[key]), lambda: f"{what}: {key} of {name}: {len(got[key])} actions shown, {len(want)} configured")
            for node, a in zip(want, got[key]):
                if isinstance(node, ast.Call) or isinstance(node, ast.Name) and isinstance(cfg.env.get(node.id), ast.Call):
                    check_action(cfg, node, a, f"{what}: {key} of {name}", editor().clients())


@st.composite
def action_spec(draw):
    return {"name": draw(st.integers(0, 60)), "values": draw(st.lists(st.integers(0, 1000), min_size=1, max_size=8)), "pages": draw(st.integers(1, 3)), "page": draw(st.integers(0, 3))}


@st.composite
def an_op(draw):
    kind = draw(st.sampled_from(["set"] * 6 + ["time", "repeat", "reopen", "source", "bounds", "bounds"]))
    op = {"op": kind, "input": draw(st.integers(0, 95))}
    if kind == "set":
        op["hold"] = draw(st.integers(0, 3)) == 3
        op["keep"] = draw(st.one_of(st.just([0, 1, 2, 3]), st.lists(st.integers(0, 4), max_size=4)))
        op["new"] = draw(st.lists(st.tuples(st.integers(0, 4), action_spec()), max_size=3))
        op["change"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 20))))
    elif kind == "time":
        op["value"] = draw(st.integers(1, 5000))
    elif kind == "repeat":
        op["value"] = draw(st.booleans())
    elif kind == "source":
        op["inputs"] = draw(inputs_source())[0]
    elif kind == "bounds":
        op.update(label=draw(st.integers(0, 6)), arg=draw(st.integers(0, 3)), value=draw(st.integers(0, 240)))
    return op


def ops(n):
    return st.lists(an_op(), min_size=2, max_size=n)


@st.composite
def shared(draw):
    """Actions with a name, used in more than one place: changing them in one place changes them"""
    names = ["_accept", "_cancel"]
    lines = ["from pyswitch.hardware.devices.pa_midicaptain_10 import *"]
    for n in names:
        lines.append(f"{n} = ENCODER_BUTTON(id = {draw(st.integers(1, 9))}, text = " + draw(st.sampled_from(TEXTS)) + ")")
    entries = []
    for i, a in enumerate(draw(st.permutations(["WHEEL_ENCODER", "WHEEL_BUTTON", "SWITCH_1", "SWITCH_A"]))):
        acts = []
        for _ in range(draw(st.integers(0, 2))):
            if a == "WHEEL_ENCODER":
                acts.append(f"ENCODER_BPM(accept_action = {draw(st.sampled_from(names))}, cancel_action = {draw(st.sampled_from(names))}, step_width = 1)")
            else:
                acts.append(draw(st.sampled_from([n for n in names if n not in acts] + ["TAP_TEMPO(use_leds = True)"])))
        key = draw(st.sampled_from(["actions", "actions", "actionsHold"]))
        entries.append("    {\n        \"assignment\": PA_MIDICAPTAIN_10_" + a + ",\n        \"" + key + "\": [" + ", ".join(acts) + "]\n    }")
    case = {"inputs": "\n".join(lines) + "\n\nInputs = [\n" + ",\n".join(entries) + "\n]\n", "display": draw(display_source())}
    case["ops"] = draw(st.lists(st.fixed_dictionaries({
        "op": st.just("set"), "input": st.integers(0, 95), "hold": st.booleans(), "keep": st.just([0, 1]), "new": st.just([]),
        "change": st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(0, 20))}), min_size=2, max_size=4))
    return case


@st.composite
def cases(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        case = {"shipped": draw(st.integers(0, 200))}
    else:
        case = {"inputs": draw(inputs_source())[0], "display": draw(display_source())}
    case["ops"] = draw(ops(5))
    return case


TESTS = [
    Test("history", cases, run_history, quick=150, thorough=8000),
    Test("shared", shared, run_history, quick=60, thorough=3000),
]
