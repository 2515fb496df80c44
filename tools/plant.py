"""Plants a bug: python3 tools/plant.py SPEC.py [--keep]
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new), ...] and DEMO (python source, using
the mini library: from vp.app import *, ...). Confirms everything which is asked of a planted bug against
/repo (always reverted), writes seeded/<ID>/ and reports whether the check of the property catches it."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")     # planting in a copy is possible
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = os.path.join(ROOT, "seeded", spec["ID"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


assert sh(f"git -C {REPO} status --porcelain").stdout.strip() == "", "repo not clean"
os.makedirs(out, exist_ok=True)
if "NODE" in spec:   # a demonstration for node, run with cwd /repo
    shutil.rmtree(out)
    os.makedirs(out)
    open(os.path.join(out, "demo.js"), "w").write(spec["NODE"].lstrip("\n"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.js"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
else:
    shutil.rmtree(os.path.join(out, "lib"), ignore_errors=True)
    lib = os.path.join(out, "lib", "vp")
    os.makedirs(lib)
    open(os.path.join(lib, "__init__.py"), "w").close()
    for f in ("world.py", "fakes.py", "app.py", "kemperdev.py") + tuple(spec.get("LIB", ())):
        os.makedirs(os.path.dirname(os.path.join(lib, f)), exist_ok=True)
        shutil.copy(os.path.join(ROOT, "vp", f), os.path.join(lib, f))
    shutil.copytree(os.path.join(ROOT, "vp", "vendor"), os.path.join(lib, "vendor"), ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(lib, "kit.py"), "w") as f:
        f.write("class Violation(Exception):\n    pass\n")
    with open(os.path.join(out, "demo.py"), "w") as f:
        f.write('import os, sys\nsys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))\nsys.dont_write_bytecode = True\nfrom vp.world import *\nfrom vp.app import *\nfrom vp.kemperdev import *\nfrom vp import fakes\n\n\ndef world(**kw):\n    w = World(**kw)\n    w.__enter__()\n    return w\n\n\n' + spec["DEMO"].lstrip("\n") + '\nprint("ok")\n')
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec ' + ("python3-vt" if "LIB" in spec else "python3") + ' "$here/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
ok = True
caught = []
d = sh(f"bash {out}/demo.sh", cwd=REPO)
print("demo unchanged:", d.returncode, "" if d.returncode == 0 else (d.stdout + d.stderr)[-700:])
ok &= d.returncode == 0
base = sh(f"git -C {REPO} rev-list --max-parents=0 HEAD").stdout.split()[-1][:7]
try:
    for fn, old, new in spec["EDITS"]:
        p = os.path.join(REPO, fn if fn.startswith(("content", "web")) else "content/lib/pyswitch/" + fn)
        s = open(p, newline="").read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    patch = sh(f"git -C {REPO} diff").stdout
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    sh(f"git -C {REPO} checkout -- .")
    import re
    orig = False
    cur = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1)) - 1
        elif not line.startswith(("+", "\\", "diff", "index", "---")):
            n += 1
        if line.startswith("-") and not line.startswith("---"):
            n += 1
            b = sh(f"git -C {REPO} blame -s -L{n},{n} HEAD -- {cur}").stdout
            if b.startswith("^" + base[:6]) or b.startswith(base):
                orig = True
            else:
                print("line of a fix commit:", b.strip())
    print("changes original lines:", orig)
    ok &= orig
    a = sh(f"git -C {REPO} apply {out}/patch.diff")
    assert a.returncode == 0, a.stderr
    d = sh(f"bash {out}/demo.sh", cwd=REPO)
    print("demo patched:", d.returncode, (d.stdout + d.stderr).strip().splitlines()[-1:])
    ok &= d.returncode != 0
    if REPO == "/repo":
        sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/plant_t.json")
        r = json.load(open("/tmp/plant_t.json"))
        passed, failed = len(r["passed"]), r["failed"]
    else:
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            os.symlink(REPO + "/content/lib", d + "/lib")
            o = sh(f"PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH={d} PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir={REPO} test/pyswitch", cwd=REPO).stdout
        m = re.search(r"(\d+) passed", o)
        passed, failed = int(m.group(1)) if m else 0, re.findall(r"FAILED \S+", o)
    print("tests:", passed, "failed:", failed[:5])
    ok &= not failed and passed >= 340
    for prop in [spec["PROPERTY"]] + spec.get("ALSO", []):
        c = sh(f"VERIF_SEED=1 ./check {prop}", cwd=ROOT)
        print("CHECK", prop, "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode, [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")], c.stderr[-300:] if c.returncode not in (0, 1) else "")
        print("   ", c.stdout.strip().splitlines()[-2:] if c.returncode != 1 else c.stdout.strip()[:600])
        if c.returncode == 1:
            caught.append(prop)
finally:
    sh(f"git -C {REPO} checkout -- .")
print("COUNTS" if ok else "DOES NOT COUNT", spec["ID"])
cf = os.path.join(ROOT, "tools", "caught.json")
res = json.load(open(cf)) if os.path.exists(cf) else {}
res[spec["ID"]] = caught
json.dump(res, open(cf, "w"), indent=1, sort_keys=True)
