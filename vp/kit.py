"""Runner: drives the generated checks of one property, shrinks failures, writes the replay file and
the evidence.

A check module (vp/checks/cNN_*.py) defines

    ID        property id
    RULE      how cases are made and what makes one non-trivial
    TESTS     list of Test(name, strategy, run, quick=N, thorough=M)

run(case, rec) receives one generated case, which is plain data (JSON-able), and a Recorder. It
raises Violation when the property is broken. Any exception that comes out of code of the
repository is a violation too (nothing in the domain of these properties may crash); an exception
that never touched the repository's code is an error of the harness and is reported as such (exit 3).
"""
import argparse
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "evidence", "replay")
KNOWN_FILE = os.path.join(ROOT, "known-findings.json")
CASE_CPU_LIMIT_S = 20


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The case is outside of the domain (counted, never a pass)"""


class Test:
    def __init__(self, name, strategy, run, quick=200, thorough=None, examples=(), weight=1.0):
        self.name = name
        self.strategy = strategy      # callable returning a Hypothesis strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.examples = list(examples)


class Recorder:
    """Measures what the generated cases actually do"""

    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self.known = {}
        self._cur_nontrivial = False
        self._cur_case = None
        self._test = ""

    def start(self, test, case):
        self.evaluations += 1
        self._test = test
        self._cur_case = case
        self._cur_nontrivial = False

    def nontrivial_if(self, cond=True):
        if cond:
            self._cur_nontrivial = True

    def label(self, name, n=1):
        key = f"{self._test}:{name}"
        self.labels[key] = self.labels.get(key, 0) + n

    def end(self):
        if self._cur_nontrivial:
            h = hashlib.sha1((self._test + json.dumps(self._cur_case, sort_keys=True, default=str)).encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len([s for s in self.samples if s["test"] == self._test]) < 2:
                    txt = json.dumps(self._cur_case, default=str)
                    if len(txt) < 4000:
                        self.samples.append({"test": self._test, "case": self._cur_case})


def jsonable(x):
    if isinstance(x, (tuple, list)):
        return [jsonable(v) for v in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return list(x)
    raise TypeError("case is not plain data: %r" % (x,))


def touches_repo(exc):
    tb = exc.__traceback__
    while tb:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    last = [f for f in frames if os.path.realpath(f.filename).startswith(REPO + os.sep)]
    where = f" at {os.path.relpath(last[-1].filename, REPO)}:{last[-1].lineno}" if last else ""
    return f"{type(exc).__name__}: {exc}{where}"


def _alarm(signum, frame):
    raise CaseTimeout(f"case did not terminate within {CASE_CPU_LIMIT_S} s of CPU time")


def run_case(test, case, rec):
    """Runs one case. Raises Violation for a violation, anything else is a harness error."""
    from . import world as _w
    rec.start(test.name, case)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT_S)
    try:
        try:
            test.run(case, rec)
        except (Violation, Skip, _w.HarnessError):
            raise
        except CaseTimeout as e:
            raise Violation(str(e)) from e
        except RecursionError as e:
            raise Violation("unbounded recursion: " + describe(e)) from e
        except Exception as e:
            if isinstance(e, SyntaxError) and str(e.filename or "").startswith(REPO):
                raise Violation(f"code does not parse: {e}") from e
            if touches_repo(e):
                raise Violation("code under test raised " + describe(e)) from e
            raise
    except Skip:
        rec.skipped += 1
        return
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    rec.end()


def fmt_list(items):
    return ", ".join(repr(i) for i in items)


# --------------------------------------------------------------------------- workers
def worker(mod, tier, seed, shard, shards, out):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    try:
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 25 if tier == "quick" else 90
    except Exception:
        pass

    rec = Recorder()
    violations = []
    sys.setrecursionlimit(5000)
    for t in mod.TESTS:
        n = t.quick if tier == "quick" else t.thorough
        if tier == "quick":
            n *= getattr(mod, "SCALE", 4)
        n = max(1, (int(n * float(os.environ.get("VERIF_SCALE", "1"))) + shards - 1) // shards)

        failing = {}

        def body(case):
            case = jsonable(case)
            failed = False
            try:
                run_case(t, case, rec)
            except Violation as v:
                failing["case"] = case
                failing["message"] = str(v)
                failed = True
            if failed:
                # without the context, which hypothesis would use to tell failures apart
                raise Violation("violation")

        # fixed cases first (shard 0 only)
        if shard == 0:
            for ex in t.examples:
                try:
                    run_case(t, jsonable(ex), rec)
                except Violation as v:
                    violations.append({"test": t.name, "case": jsonable(ex), "message": str(v)})
                    break

        if violations and violations[-1]["test"] == t.name:
            continue
        if t.strategy is None:
            continue

        s = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                     phases=(Phase.generate,) if os.environ.get("VERIF_FAST") else (Phase.generate, Phase.shrink), report_multiple_bugs=False,
                     print_blob=False, verbosity=Verbosity.quiet,
                     suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example])
        test_seed = int(hashlib.sha256(f"{seed}/{shard}/{mod.ID}/{t.name}".encode()).hexdigest()[:12], 16)
        f = hypothesis.seed(test_seed)(s(given(t.strategy())(body)))
        try:
            f()
        except Violation:
            violations.append({"test": t.name, "case": failing["case"], "message": failing["message"]})
    with open(out, "w") as fh:
        json.dump({"evaluations": rec.evaluations, "skipped": rec.skipped, "labels": rec.labels,
                   "nontrivial": sorted(rec.nontrivial), "samples": rec.samples, "known": rec.known,
                   "violations": violations}, fh)


def load(prop):
    cdir = os.path.join(ROOT, "vp", "checks")
    for fn in sorted(os.listdir(cdir)):
        if fn.lower().startswith(prop.lower() + "_") and fn.endswith(".py"):
            return importlib.import_module("vp.checks." + fn[:-3])
    raise SystemExit(f"no check for {prop}")


def all_ids():
    cdir = os.path.join(ROOT, "vp", "checks")
    return sorted(fn.split("_")[0].upper() for fn in os.listdir(cdir) if fn[0] == "c" and fn[1].isdigit())


def known_findings(prop):
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=2, metavar=("SHARD", "OUT"))
    ap.add_argument("--test", help="only this test (debugging)")
    ap.add_argument("--labels", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    mod = load(a.prop)
    if a.test:
        mod.TESTS = [t for t in mod.TESTS if t.name == a.test]
    shards = a.shards or int(os.environ.get("VERIF_SHARDS", "0")) or getattr(mod, "SHARDS", 6)

    if a.worker:
        try:
            worker(mod, tier, a.seed, int(a.worker[0]), shards, a.worker[1])
        except BaseException:
            traceback.print_exc()
            return 3
        return 0

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        t = [t for t in mod.TESTS if t.name == r["test"]][0]
        try:
            run_case(t, r["case"], Recorder())
        except Violation as v:
            print(f"{mod.ID}/{t.name}: {v}")
            print(f"VIOLATION property={mod.ID} replay={a.replay}")
            return 1
        print("replay: property holds on this case")
        return 0

    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp-" + mod.ID + "-")
    procs = []
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    for i in range(shards):
        out = os.path.join(scratch, f"s{i}.json")
        cmd = [sys.executable, os.path.join(ROOT, "vp", "main.py"), a.prop, "--tier", tier, "--seed", str(a.seed),
               "--shards", str(shards), "--worker", str(i), out]
        if a.test:
            cmd += ["--test", a.test]
        procs.append((i, out, subprocess.Popen(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    results = []
    errors = []
    outs = {}
    import threading

    def drain(i, p):
        outs[i] = p.communicate()[0]

    ths = [threading.Thread(target=drain, args=(i, p)) for i, _, p in procs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for i, out, p in procs:
        if p.returncode != 0 or not os.path.exists(out):
            errors.append(f"worker {i} ended with {p.returncode}:\n" + outs[i].decode(errors="replace")[-6000:])
            continue
        with open(out) as f:
            results.append(json.load(f))
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)

    labels = {}
    nontrivial = set()
    samples = []
    viols = []
    ev = sk = 0
    known = {}
    for r in results:
        ev += r["evaluations"]
        sk += r["skipped"]
        nontrivial |= set(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for s in r["samples"]:
            if len([x for x in samples if x["test"] == s["test"]]) < 2:
                samples.append(s)
        viols += r["violations"]
        known.update(r["known"])
    viols.sort(key=lambda v: (len(json.dumps(v["case"])), json.dumps(v["case"])))
    wall = round(time.time() - t0, 2)
    evidence = {
        "property": mod.ID, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
            "samples": samples, "classes": dict(sorted(labels.items())), "outside_domain": sk,
            "tests": [t.name for t in mod.TESTS], "shards": shards,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": wall, "violations": len(viols),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, mod.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if a.labels:
        for k, v in sorted(labels.items()):
            print(f"  {k}: {v}")

    rc = 0
    if viols:
        os.makedirs(REPLAYS, exist_ok=True)
        seen = set()
        for v in viols:
            if v["test"] in seen:
                continue
            seen.add(v["test"])
            path = os.path.join(REPLAYS, f"{mod.ID}-{v['test']}.json")
            with open(path, "w") as f:
                json.dump({"property": mod.ID, "test": v["test"], "case": v["case"], "message": v["message"]}, f, indent=1)
            print(f"{mod.ID}/{v['test']}: {v['message']}")
            print(f"VIOLATION property={mod.ID} replay={path}")
        rc = 1
    elif errors:
        print("\n".join(errors))
        print(f"{mod.ID}: harness error, nothing decided")
        return 3
    for k in known_findings(mod.ID):
        chk = getattr(mod, "KNOWN", {}).get(k["key"])
        if chk is None:
            continue
        if chk():
            print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
    if rc == 0:
        print(f"{mod.ID}: held on {ev} cases ({len(nontrivial)} distinct non-trivial), tier {tier}, seed {a.seed}, {wall} s")
    return rc
