"""Writes DESIGN.md: the text below, the checks' own rules and numbers, the planted bugs and the defects."""
import glob, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp import props

HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
ORACLE = {}
cur = None
for line in open(os.path.join(ROOT, "tools", "design_props.md")):
    m = re.match(r"## (C\d\d)", line)
    if m:
        cur = m.group(1)
        ORACLE[cur] = ""
    elif cur:
        ORACLE[cur] += line

mods = {}
for f in sorted(glob.glob(os.path.join(ROOT, "vp", "checks", "c*.py"))):
    m = importlib.import_module("vp.checks." + os.path.basename(f)[:-3])
    mods[m.ID] = m

known = json.load(open(os.path.join(ROOT, "known-findings.json")))
fixed = {}
for e in known["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", e, re.S)
    fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))

bugs = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    meta = json.load(open(os.path.join(d, "meta.json")))
    bugs.append((os.path.basename(d), meta))
res = {}
p = os.path.join(ROOT, "tools", "caught.json")
if os.path.exists(p):
    res = json.load(open(p))

out = [HEAD.rstrip(), "", "# Properties", ""]
for p in props.P:
    i = p["id"]
    m = mods.get(i)
    out += [f"## {i} {p['title']}", ""]
    out += [ORACLE.get(i, "").strip(), ""]
    if m:
        sc = getattr(m, "SCALE", 4)
        out.append("- Generated: " + " ".join(m.RULE.split()))
        if getattr(m, "NOTE", None):
            out.append("- Left open: " + " ".join(m.NOTE.split()))
        out.append("- Bounds: " + ", ".join(f"`{t.name}` {t.quick * sc} cases quick, {t.thorough} thorough" + (f", {len(t.examples)} fixed cases first" if t.examples else "") for t in m.TESTS))
    if i in fixed:
        out.append("- Defects found and repaired: " + "; ".join(f"{t} (`{h}`)" for h, t in fixed[i]))
    k = [f for f in known["findings"] if f["property"] == i]
    if k:
        out.append("- Known findings (not repaired): " + "; ".join(f["what"] for f in k))
    b = [n for n, meta in bugs if meta["property"] == i]
    if b:
        out.append("- Planted bugs: " + ", ".join(f"`{n}`" for n in b))
    out.append("")

out += ["# Planted bugs", "", "| id | property | needs | caught by |", "| --- | --- | --- | --- |"]
for n, meta in bugs:
    out.append(f"| {n} | {meta['property']} | {' '.join(meta['needs'].split())} | {', '.join(res.get(n, [])) or 'not caught'} |")
tail = os.path.join(ROOT, "tools", "design_tail.md")
if os.path.exists(tail):
    out += ["", open(tail).read().rstrip()]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
