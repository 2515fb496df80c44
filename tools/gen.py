"""Writes properties.jsonl and MANIFEST.json from vp/props.py and the check modules present.
Usage: python3-vt tools/gen.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp.props import P

NA = {}
na_file = os.path.join(ROOT, "tools", "not_applicable.json")
if os.path.exists(na_file):
    NA = json.load(open(na_file))
have = {fn.split("_")[0].upper() for fn in os.listdir(os.path.join(ROOT, "vp", "checks")) if fn.startswith("c") and fn[1].isdigit()}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

checks = []
na = []
for p in P:
    if p["id"] in have:
        import importlib
        fn = [x for x in os.listdir(os.path.join(ROOT, "vp", "checks")) if x.startswith(p["id"].lower() + "_")][0]
        mod = importlib.import_module("vp.checks." + fn[:-3])
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": getattr(mod, "TECHNIQUE", "property-based testing (Hypothesis) of generated histories against a reference model, with shrinking"),
            "level": getattr(mod, "LEVEL", "exploration"),
            "level_note": getattr(mod, "NOTE", "Seeded random exploration of generated cases with shrinking; no absence proof. Trusts the hardware stand-ins in vp/fakes.py and the vendored adafruit_midi."),
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the code is imported from the working tree into isolated worlds (vp/world.py)."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
