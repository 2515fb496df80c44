"""C48: what the editor offers works on the controller"""
import ast
import functools
import os
import shutil
import tempfile

from hypothesis import strategies as st

from .. import gens, zoo
from ..app import App, expect, label, root, splash_callback
from ..editor import editor
from ..editsrc import call_source, load, shipped_sources
from ..kemperdev import Device
from ..kit import Test
from ..shipped import Attach, Machine
from ..world import World
from .c38_zoo import ops
from .c43_edits import offered

ID = "C48"
SCALE = 2
RULE = ("(defaults) random configurations of all actions and callbacks the editor offers, once with the left-out parameters and once with the default values which the editor shows for them written out: after each operation of a history both "
        "have to have sent the same and show the same; non-trivial: at least three parameters written out, and a message sent. (created) actions built like in the editor's dialogs (values offered for the parameters, untouched ones included) are put on the inputs of a shipped configuration "
        "by the editor; the written files are started and operated; non-trivial: at least two actions created.")
NOTE = "Equality of the two runs is exact: both see the same device, inputs and time."
TECHNIQUE = "property-based testing (Hypothesis): metamorphic (written out and left out defaults) and end to end from the editor to the running controller"


# ------------------------------------------------------------------- defaults
CALLBACKS = {c["name"]: c for cl in zoo._load("callbacks.json") for c in cl["callbacks"]}


@functools.lru_cache(None)
def written_out(src, keep=()):
    """The same call with all defaults of the editor's definitions"""
    tree = ast.parse(src, mode="eval").body
    name = tree.func.id
    d = zoo.ACTIONS.get(name) or CALLBACKS[name]
    have = {k.arg for k in tree.keywords}
    n = 0
    for p in d["parameters"]:
        if p["default"] is not None and p["name"] not in have and p["name"] not in keep:
            tree.keywords.append(ast.keyword(arg=p["name"], value=ast.parse(p["default"], mode="eval").body))
            n += 1
    return ast.unparse(tree), n


def default_cases():
    @st.composite
    def f(draw):
        comp = draw(zoo.composition(max_switches=4))
        return {"comp": comp, "ops": draw(ops(len(comp["switches"]))), "splash": draw(st.sampled_from(["plain", "tuner", "tuner", "strobe"])), "rigname": draw(st.booleans()),
                "protocol": draw(gens.rarely(st.just(False), True)), "rig": draw(st.integers(0, 624))}
    return f()


def observe(case, explicit):
    """Runs the history, returns what was sent and shown after each operation"""
    comp = case["comp"]
    n = 0

    def src(s):
        nonlocal n
        if not explicit or not s[0].isalpha() or "(" not in s or s.split("(")[0] not in zoo.ACTIONS:
            return s
        s, k = written_out(s)
        n += k
        return s

    comp = dict(comp, pagers=[src(s) for s in comp["pagers"]], pots=[src(s) for s in comp["pots"]], encoders=[src(s) for s in comp["encoders"]],
                switches=[dict(s, **{k: [src(a) for a in s[k]] for k in ("actions", "hold") if k in s}) for s in comp["switches"]])
    out = []
    with World() as w:
        ns = zoo.namespace(w)
        for c in CALLBACKS.values():
            ns[c["name"]] = getattr(w.imp(c["importPath"].split("pyswitch.", 1)[1]), c["name"])
        labels = [label(w, y=24 * i, h=24) for i in range(comp["labels"])]
        children = list(labels)
        if case["rigname"]:
            s = "KemperRigNameCallback()"
            children.append(label(w, y=120, h=60, callback=eval(written_out(s)[0] if explicit else s, ns), text="x", maxTextWidth=220))
        plain = label(w, y=200, h=30, back=None, text="plain")
        children.append(plain)
        inputs = zoo.build(w, comp, labels, plain)
        ns["ROOT"] = r = root(w, children)
        if case["splash"] == "plain":
            splash = splash_callback(w, r)
        else:
            s = "TunerDisplayCallback(splash_default = ROOT" + (", strobe = True)" if case["splash"] == "strobe" else ")")
            splash = eval(written_out(s)[0] if explicit else s, ns)
        app = App(w, inputs, splash=splash, **({"protocol": w.get("clients.kemper", "KemperBidirectionalProtocol")(30)} if case["protocol"] else {}))
        dev = Device(rig=case["rig"], bidirectional=case["protocol"])
        dev.params.update({(4, 0): 120 * 64, (4, 1): 8192, (0, 11): 0, (0x7c, 0): 0, (0x7d, 0x54): 64, (0x7c, 0x0f): 8192})
        dev.attach(app)
        app.init()
        kinds = {k: [i for i, d in enumerate(inputs) if d.get("kind", "switch") == k] for k in ("switch", "pot", "encoder")}

        def go(ms):
            end = w.clock.ms + ms
            while w.clock.ms < end:
                dev.tick()
                app.tick()

        def snap(op):
            out.append((op, list(app.port.sent), [(d.text, d.back_color, d.text_color) for d in children], app.leds()))
            app.port.sent.clear()

        go(300)
        dev.report_rig()
        go(300)
        snap("start")
        for op in case["ops"]:
            if op[0] in ("tap", "down"):
                i = kinds["switch"][op[1] % len(kinds["switch"])]
                if op[0] == "tap":
                    app.press(i)
                    go(op[2])
                    app.release(i)
                else:
                    app.models[i].pushed = op[2]
                go(20)
            elif op[0] == "turn" and kinds["encoder"]:
                app.models[kinds["encoder"][op[1] % len(kinds["encoder"])]].position += op[2]
                go(30)
            elif op[0] == "pedal" and kinds["pot"]:
                app.models[kinds["pot"][op[1] % len(kinds["pot"])]].value = op[2]
                go(60)
            elif op[0] == "rig":
                dev.load(op[1])
                go(50)
            elif op[0] == "param":
                dev.set(*op[1], op[2])
                dev.report(*op[1])
                go(30)
            elif op[0] == "midi":
                app.port.push(op[1])
                go(30)
            elif op[0] == "wait":
                go(op[1])
            snap(op)
    return out, n


def run_defaults(case, rec):
    a, _ = observe(case, False)
    b, n = observe(case, True)
    for (op, *left), (_, *out) in zip(a, b):
        for what, x, y in zip(("messages sent", "labels (text, background, text colour)", "LEDs"), left, out):
            expect(x == y, lambda: f"{what} after {op} differ: {[p for p in zip(x, y) if p[0] != p[1]][:2] or (x, y)} (parameters left out, and written out with the defaults of the editor)")
    rec.label("written out", n)
    rec.nontrivial_if(n >= 3 and any(x[1] for x in a[1:]))


# ------------------------------------------------------------------- created
TARGETS = {"AdafruitSwitch": 0, "AdafruitEncoder": 1, "AdafruitPotentiometer": 2}


def created_cases():
    action = st.fixed_dictionaries({"name": st.integers(0, 80), "picks": st.lists(st.integers(0, 200), min_size=4, max_size=12), "hold": gens.rarely(st.just(True), False, 4)})
    return st.fixed_dictionaries({
        "config": st.integers(0, 40), "actions": st.lists(st.tuples(st.integers(0, 9), action), min_size=1, max_size=4),
        "ops": st.lists(st.tuples(st.integers(0, 9), st.sampled_from([20, 100, 700])), min_size=1, max_size=6), "rig": st.integers(0, 624)})


def chosen(o, spec, labels):
    """The definition which the editor's dialog creates from what was chosen in it"""
    args = []
    for i, p in enumerate(o["parameters"]):
        pick = spec["picks"][i % len(spec["picks"])]
        n, v = p["name"], p["untouched"]
        if n == "pages":
            args.append({"name": n, "value": [{"id": str(j + 1), "color": "Colors.RED" if j else "(1, 2, 3)", "text": f"'Page {j}'"} for j in range(1 + pick % 3)]})
            continue
        if n in ("enable_callback", "accept_action", "cancel_action", "id", "page_id", "select_page") or pick % 3 == 0 or (n == "num_leds" and o["name"] == "ROTATING_MESSAGES"):      # documented: needs as many color lists
            pass
        elif n == "display" or n.endswith("_display"):
            mine = labels[1] if n in ("preview_display", "change_display") else labels[0]
            v = mine[pick % len(mine)] if mine else v
        elif isinstance(p["values"], list) and p["values"]:
            v = str(p["values"][pick % len(p["values"])]["value"])
        elif p["min"] is not None and p["max"] is not None and not isinstance(p["max"], str):
            v = repr([p["min"], p["max"], (p["min"] + p["max"]) / 2 if p["type"] == "float" else (p["min"] + p["max"]) // 2][pick % 3])
        elif p["type"] == "bool":
            v = "True" if pick & 1 else "False"
        elif p["type"] == "color":
            v = ["Colors.RED", "Colors.WHITE", "(10, 20, 30)"][pick % 3]
        elif p["type"] == "text":
            v = "'Text'"
        elif p["type"] == "int":
            v = str(1 + pick % 20)
        if p["fixed"] is not None and v == p["fixed"]:
            continue
        args.append({"name": n, "value": v})
    vals = {a["name"]: a["value"] for a in args}
    if o["name"].startswith("RIG_SELECT"):
        if vals.get("rig_off", "None") != "None" and vals.get("bank", "None") != "None" and vals.get("bank_off", "None") == "None":
            args = [a for a in args if a["name"] != "bank_off"] + [{"name": "bank_off", "value": "'auto'"}]     # documented: both are needed
        if vals.get("rig_off", "None") == "None" and vals.get("bank_off") == "'auto'":
            args = [a for a in args if a["name"] != "bank_off"]
    elif vals.get("bank_off") == "'auto'":
        args = [a for a in args if a["name"] != "bank_off"]         # only rig selections can remember the last bank
    return {"name": o["name"], "assign": "_verif_pager" if o["name"] == "PagerAction" else None, "arguments": args}


def with_background(src):
    """Names of the display labels whose layout has a background color"""
    env = {t.id: n.value for n in ast.parse(src).body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}

    def has(v):
        if isinstance(v, ast.Name) and v.id in env:
            return has(env[v.id])
        return isinstance(v, ast.Dict) and any(isinstance(k, ast.Constant) and k.value == "backColor" for k in v.keys)

    return {n for n, v in env.items() if isinstance(v, ast.Call) and any(k.arg == "layout" and has(k.value) for k in v.keywords)}


def start(inputs_py, display_py, script):
    d = tempfile.mkdtemp(prefix="verif-c48-")
    try:
        for n, s in (("inputs", inputs_py), ("display", display_py)):
            with open(os.path.join(d, n + ".py"), "w", encoding="utf-8") as f:
                f.write(s)
        Machine(d).run(script)
    finally:
        shutil.rmtree(d)


def run_created(case, rec):
    off = offered()
    files = load({"shipped": case["config"]})
    e = editor()
    hw = e.call("open", files=files)
    every = [x for x in e.call("displays") if x]
    back = with_background(files["display_py"])
    labels = ([x for x in every if x in back], every)      # actions need labels with a background color, previews do not
    made = []
    acts = {}
    paged = False
    for where, spec in case["actions"]:
        name, _, kind = hw[where % len(hw)]
        choice = [o for o in off if o["target"] == kind and not o["name"].endswith(".proxy") and not (paged and o["name"] == "PagerAction")]
        if not choice:
            continue
        o = choice[spec["name"] % len(choice)]
        paged = paged or o["name"] == "PagerAction"
        a = chosen(o, spec, labels)
        hold = spec["hold"] and kind == "AdafruitSwitch"
        acts.setdefault((name, hold), []).append(a)
        made.append((name, kind, a))
        rec.label(o["name"])
    for (name, hold), a in acts.items():
        e.call("set", input=name, create=True, actions=a, hold=hold, reread=False)
    files = e.call("files")
    what = lambda: f"{[(n, call_source(a)) for n, _, a in made]}"
    touched = []

    def script(m):
        dev = Device(rig=case["rig"])
        for a, v in (((4, 0), 120 * 64), ((4, 1), 8192), ((0, 11), 0)):
            dev.params[a] = v
        dev.attach(Attach(m, m.ports[0]))
        inputs = [i for i in m.w.imp_abs("inputs").Inputs if any(i["assignment"]["name"] == n for n, _, _ in made)]
        expect(len(inputs) == len({n for n, _, _ in made}), lambda: f"the written inputs are not there: {what()}")

        def settle(ms):
            end = m.clock.ms + ms
            while m.clock.ms < end:
                dev.tick()
                yield

        yield from settle(300)
        dev.report_rig()
        yield from settle(1000)
        for i, ms in case["ops"]:
            model = inputs[i % len(inputs)]["assignment"]["model"]
            touched.append(i)
            if hasattr(model, "pushed"):
                m.hw.digital[model.port] = 0
                yield from settle(ms)
                m.hw.digital[model.port] = 1
            elif hasattr(model, "position"):
                p = (model.port_1, model.port_2)
                m.hw.rotary[p] = m.hw.rotary.get(p, 0) + (ms if i % 2 else -ms)
            else:
                m.hw.analog[model.port] = (ms * 331) % 65536
            yield from settle(60)
        yield from settle(400)

    if made:
        rec.note = what
        start(files["inputs_py"], files["display_py"], script)
    rec.nontrivial_if(len(made) >= 2 and touched)


TESTS = [Test("defaults", default_cases, run_defaults, quick=300, thorough=12000),
         Test("created", created_cases, run_created, quick=40, thorough=1500)]
