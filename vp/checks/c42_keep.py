"""C42: what the editor does not edit stays as it is"""
import ast

from ..app import expect
from ..editor import editor
from ..editsrc import (Config, body, dump, imports, load, parse, reachable, segments, shipped_sources, sources, unresolved, used_imports)
from ..kit import Test, Violation

ID = "C42"
SCALE = 1
RULE = ("cases: one of the shipped configurations, or generated inputs.py and display.py files in a user's own style (quotes, layout, comments, helper values, functions, classes, own imports, "
        "assigned actions and inputs, pagers, nested calls, lists and dicts, unpacked arguments); non-trivial: a generated file pair with at least one action, or a shipped configuration. "
        "The editor's JavaScript (node) and Python (libcst) code run unmodified, the Pyodide bridge between them is replaced.")
TECHNIQUE = "property-based testing (Hypothesis): round trip and metamorphic relations on generated sources, against an independent reader (ast)"


def opened(case):
    files = load(case)
    e = editor()
    hw = e.call("open", files=files)
    return e, files, hw


def nontrivial(case, files, rec):
    n = sum(1 for _ in ast.walk(ast.parse(files["inputs_py"])) if isinstance(_, ast.Call))
    rec.nontrivial_if("shipped" in case or n > 0)
    rec.label("shipped" if "shipped" in case else "generated")
    rec.label("calls", n)


def compare(files, now, what):
    for k, root in (("inputs_py", "Inputs"), ("display_py", "Splashes")):
        old, new = files[k], now[k]
        a, b = body(old), body(new, k)
        if a != b:
            diff = [(x, y) for x, y in zip(a + [None] * len(b), b + [None] * len(a)) if x != y][:1]
            raise Violation(f"{what} changed the statements of {k}, first difference {diff}:\n--- before:\n{old}\n--- after:\n{new}")
        ia, ib = used_imports(old), used_imports(new)
        lost = {n: (ia[0][n], ib[0].get(n)) for n in ia[0] if ib[0].get(n) != ia[0][n]}
        expect(not lost, lambda: f"{what} changed imports of used names in {k} (name, before, after): {lost}\n--- before:\n{old}\n--- after:\n{new}")
        expect(set(ia[1]) == set(ib[1]), lambda: f"{what} changed star imports of {k}: {ia[1]} -> {ib[1]}")
        expect(unresolved(new) <= unresolved(old), lambda: f"{what} left names undefined in {k}: {unresolved(new) - unresolved(old)}\n--- before:\n{old}\n--- after:\n{new}")
        skip = reachable(old, root)
        for s in segments(old, skip):
            expect(s in new, lambda: f"{what} changed code that was not edited in {k}:\n{s}\n--- before:\n{old}\n--- after:\n{new}")


def run_roundtrip(case, rec):
    e, files, hw = opened(case)
    nontrivial(case, files, rec)
    e.call("write")
    first = e.call("files")
    compare(files, first, "writing without a change")
    e.call("open", files=first)
    e.call("write")
    second = e.call("files")
    for k in first:
        expect(first[k] == second[k], lambda: f"{k} written by the editor is changed by writing it again:\n--- before:\n{first[k]}\n--- after:\n{second[k]}")
    rec.label("unchanged text", int(first == files))


def run_source(case, rec):
    """Reading and writing the source only (the inputs are not set): everything but imports is verbatim"""
    files = load(case)
    nontrivial(case, files, rec)
    e = editor()
    p = e.parser()
    with e.python():
        p.from_source(files["inputs_py"], files["display_py"])
        now = p.to_source()
    compare(files, now, "reading and writing the source")
    for k in files:
        for s in segments(files[k]):
            expect(s in now[k], lambda: f"reading and writing the source changed\n{s}\n--- before:\n{files[k]}\n--- after:\n{now[k]}")


def action_of(cfg, node):
    assign = None
    if isinstance(node, ast.Name) and node.id in cfg.env:
        assign, node = node.id, cfg.env[node.id]
    if not isinstance(node, ast.Call):
        return None
    args = [[None, ast.unparse(a.value if isinstance(a, ast.Starred) else a)] for a in node.args]
    args += [[k.arg, ast.unparse(k.value)] for k in node.keywords]
    return {"name": ast.unparse(node.func), "assign": assign, "arguments": args}


def check_action(cfg, node, got, where, clients):
    exp = action_of(cfg, node)
    expect(exp is not None, lambda: f"harness: {ast.unparse(node)}")
    expect(got["name"] and dump(got["name"]) == dump(exp["name"]) and got["assign"] == exp["assign"],
           lambda: f"{where}: read action {got['name']} assigned to {got['assign']}, the source says {ast.unparse(node)}")
    want, have = [], []
    for k, v in exp["arguments"]:
        if exp["name"] == "PagerAction" and k == "pages":
            pages = [{kk.value: ast.unparse(vv) for kk, vv in zip(d.keys, d.values)} for d in ast.parse(v, mode="eval").body.elts]
            want.append([k, [{n: dump(p[n]) for n in ("id", "color", "text") if n in p} for p in pages]])
        else:
            want.append([k, dump(v)])
    for a in got["arguments"]:
        if isinstance(a["value"], list):
            have.append([a["name"], [{n: dump(p[n]) for n in ("id", "color", "text") if p.get(n) is not None} for p in a["value"]]])
        else:
            have.append([a["name"], dump(a["value"])])
    expect(sorted(want, key=str) == sorted(have, key=str), lambda: f"{where}: arguments read as {got['arguments']}, the source says {ast.unparse(node)}")
    base = exp["name"]
    mod = cfg.imports.get(base)
    if mod and mod[0].startswith("pyswitch.clients.") and mod[0].split(".")[2] in clients:
        expect(got["client"] == mod[0].split(".")[2], lambda: f"{where}: {base} imported from {mod[0]} is shown for client {got['client']}")
    elif not mod:
        expect(got["client"] == "local", lambda: f"{where}: {base} without any import is shown for client {got['client']}")
    args = {k: v for k, v in exp["arguments"] if k}
    ec, pid = args.get("enable_callback"), args.get("id")
    if ec and pid and ec.endswith(".enable_callback") and ec.count(".") == 1 and pid != "None":
        expect(got["pager"] == ec.split(".")[0] and dump(got["page"]) == dump(pid), lambda: f"{where}: shown for page {got['pager']}/{got['page']}, the source says {ec}/{pid}")


def run_read(case, rec):
    """Everything the editor shows about the inputs is what the source says"""
    e, files, hw = opened(case)
    nontrivial(case, files, rec)
    src = files["inputs_py"]
    cfg = Config(src)
    tree = ast.parse(src)
    env = {t.id: s.value for s in tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
    nodes = {}
    for el in env["Inputs"].elts:
        d = env[el.id] if isinstance(el, ast.Name) else el
        keys = {k.value: v for k, v in zip(d.keys, d.values)}
        nodes.setdefault(keys["assignment"].id, keys)
    clients = editor().clients()
    for model, name, _ in hw:
        got = e.call("read", input=model)
        if name not in nodes:
            expect(got is None, lambda: f"input {name} is not configured, but shown with {got}")
            continue
        keys = nodes[name]
        expect(got is not None, lambda: f"configured input {name} is not shown:\n{src}")
        for key in ("actions", "actionsHold"):
            want = [x for x in keys[key].elts if not (isinstance(x, ast.Constant) and x.value is None)] if key in keys else []
            if any(action_of(cfg, x) is None for x in want):
                continue
            expect(len(want) == len(got[key]), lambda: f"{key} of {name}: {len(got[key])} actions shown, {len(want)} configured:\n{src}")
            for node, a in zip(want, got[key]):
                rec.label("actions")
                check_action(cfg, node, a, f"{key} of {name}", clients)
        if "holdTimeMillis" in keys and isinstance(keys["holdTimeMillis"], ast.Constant):
            expect(got["holdTimeMillis"] == int(keys["holdTimeMillis"].value), lambda: f"{name}: hold time {got['holdTimeMillis']} shown, {keys['holdTimeMillis'].value} configured")
        elif "holdTimeMillis" not in keys:
            expect(got["holdTimeMillis"] is None, lambda: f"{name}: hold time {got['holdTimeMillis']} shown, none configured")
        if "holdRepeat" in keys and isinstance(keys["holdRepeat"], ast.Constant):
            expect(got["holdRepeat"] == keys["holdRepeat"].value, lambda: f"{name}: hold repeat {got['holdRepeat']} shown")
        elif "holdRepeat" not in keys:
            expect(got["holdRepeat"] is None, lambda: f"{name}: hold repeat {got['holdRepeat']} shown, none configured")
    # Display labels offered for actions are the public names of the display file
    want = []
    for s in ast.parse(files["display_py"]).body:
        if isinstance(s, ast.Assign):
            want += [t.id for t in s.targets if isinstance(t, ast.Name) and not t.id.startswith("_") and t.id != "Splashes"]
    got = e.call("displays")
    expect(got == want, lambda: f"displays offered {got}, defined {want}")


def S():
    return sources()


TESTS = [
    Test("roundtrip", S, run_roundtrip, quick=130, thorough=6000, examples=[{"shipped": i} for i in range(0, len(shipped_sources()), 8)]),
    Test("source", S, run_source, quick=130, thorough=5000),
    Test("read", S, run_read, quick=250, thorough=12000, examples=[{"shipped": i} for i in range(len(shipped_sources()))]),
]
