"""C49: opening and saving configurations in the web application"""
import os

from hypothesis import strategies as st

from ..app import expect
from ..kit import Test
from ..webapp import webapp
from ..world import REPO


ID = "C49"
SCALE = 1
RULE = ("histories of opening (presets of any name, controllers, templates, examples, directories), editing (by the parser, in the code tabs, by upload), saving (in place, as preset, to a controller, to a directory; with failing writes), "
        "renaming and deleting presets, changes of the directory by other programs and reloading the page, all through the dialogs of the web application, against a model of the storage places and the current configuration. "
        "Non-trivial: at least two saves to at least two places, and something saved was opened again")
NOTE = ("The real application with its dialogs runs in node; stand-ins: DOM, local storage, file handles, Web MIDI with controllers behind the real JsMidiBridge, Pyodide. Edits made while a save is still running are left out; "
        "text typed into a code tab counts as edit when it is applied.")

KINDS = {"WebConfiguration": "web", "PresetConfiguration": "preset", "ControllerConfiguration": "controller", "LocalFolderConfiguration": "folder"}
RESERVED = ("Local Presets", "New Preset...", "Connected Controllers", "Create new...", "Examples", "Open Directory...", "Upload...", "Download ZIP", "Save to Directory...")


def _leaves(base):
    res = []
    for root, dirs, files in os.walk(base):
        dirs.sort()
        rel = os.path.relpath(root, base)
        if not dirs and rel != "." and "inputs.py" in files and "display.py" in files and "MIDI Routings" not in root and "Multiboot" not in root:
            res.append(rel)
    return res


EXAMPLES = [("Examples", "examples", p) for p in _leaves(os.path.join(REPO, "examples"))]
TEMPLATES = [("Create new...", "web/htdocs/templates", p) for p in _leaves(os.path.join(REPO, "web/htdocs/templates"))]


def _read(base, p):
    return {k + "_py": open(os.path.join(REPO, base, p, k + ".py"), newline="").read() for k in ("inputs", "display")}


TEXT = st.text(st.characters(codec="utf-8", exclude_categories=("Cs", "Cc")), min_size=1, max_size=12)
NAME = st.one_of(TEXT, st.text("ab +#?%/&=<>\"'\\20;:@ä", min_size=1, max_size=6), st.sampled_from(["My Rig", "100%", "A+B", "C#m", "really?", "a/b", "%20", "1", "null", "constructor", "__proto__", "pyswitch-default", "ä ö"]),
                 st.sampled_from(["Live", "Live 2", "Live 20", "live", "My Live"]))
PORTS = ["Ctl 1", "Ctl 2", "MIDI+", "Köln #2 (100%)"]


def histories():
    code = st.one_of(st.builds(lambda t, n: t + "\n" * n, TEXT, st.integers(0, 2)), st.builds(lambda t, n: t * n, TEXT, st.sampled_from([30, 200])))
    data = st.tuples(code, code)
    n = st.integers(0, 9)
    yes = st.booleans() | st.just(True)
    fail = st.sampled_from([[], [], [], ["inputs.py"], ["display.py"], ["inputs.py", "display.py"]])
    full = st.sampled_from([False, False, False, True])
    folder = st.sampled_from(["rigs", "b"])
    op = st.one_of(
        st.tuples(st.just("edit"), data), st.tuples(st.just("edit"), data),
        st.tuples(st.just("type"), st.integers(0, 1), code), st.tuples(st.just("apply"), st.integers(0, 1)), st.tuples(st.just("upload"), code | st.none(), code | st.none()),
        st.tuples(st.just("open_preset"), n, yes), st.tuples(st.just("open_preset"), n, yes), st.tuples(st.just("open_controller"), st.integers(0, 3), yes),
        st.tuples(st.just("open_web"), st.integers(0, 99), yes), st.tuples(st.just("open_default"), yes), st.tuples(st.just("open_folder"), folder, yes),
        st.tuples(st.just("save"), fail, full), st.tuples(st.just("save"), fail, full), st.tuples(st.just("save_new"), st.lists(NAME, min_size=0, max_size=2), st.booleans(), yes, full), st.tuples(st.just("save_new"), st.lists(NAME, min_size=1, max_size=1), st.just(True), st.just(True), st.just(False)),
        st.tuples(st.just("save_preset"), n, yes, full), st.tuples(st.just("save_controller"), st.integers(0, 3), yes), st.tuples(st.just("save_last")), st.tuples(st.just("save_folder"), folder, fail),
        st.tuples(st.just("rename"), n, NAME | n.map(lambda i: i), yes), st.tuples(st.just("delete"), n, yes), st.tuples(st.just("write"), folder, st.integers(0, 1), code), st.tuples(st.just("reload")), st.tuples(st.just("restart")),
        st.tuples(st.just("download")))
    return st.fixed_dictionaries({
        "ports": st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["controller", "controller", "silent"]), data), max_size=3, unique_by=lambda p: p[0]),
        "observer": st.booleans(), "presets": st.lists(st.tuples(NAME, data), max_size=3), "folders": st.dictionaries(folder, st.dictionaries(st.sampled_from(["inputs.py", "display.py", "other.txt"]), code, max_size=3), max_size=2),
        "ops": st.lists(op.map(list), min_size=3, max_size=14)})


class Model:
    def __init__(self, w, case):
        self.w = w
        self.ports = [{"id": str(i), "name": PORTS[i], "device": kind, "files": {"inputs.py": d[0], "display.py": d[1]} if kind == "controller" else {}} for i, kind, d in case["ports"]]
        self.devices = {p["id"]: dict(p["files"]) for p in self.ports}
        self.presets, self.folders, self.handle, self.last = {}, {}, None, None
        self.current = None             # kind, name, data, dirty
        self.url = None
        self.typed = [None, None]
        self.known = False              # Editors exist
        self.saved, self.reopened, self.written = 0, 0, set()

    # What opening gives
    def stored(self, kind, name):
        if kind == "preset":
            d = self.presets.get(name)
            return d and dict(d)
        if kind == "controller":
            f = next((self.devices[p["id"]] for p in self.ports if p["name"] == name and p["device"] == "controller"), None)
            if f is None:
                return None
            self.last = name
            return {"inputs_py": f["inputs.py"], "display_py": f["display.py"]}
        if kind == "folder":
            if not self.handle:
                return None
            f = self.folders[self.handle]
            default = _read("web/htdocs/templates", "MIDICaptain 10")
            for n in ("inputs", "display"):
                f.setdefault(n + ".py", "")
            return {n + "_py": f[n + ".py"] or default[n + "_py"] for n in ("inputs", "display")}
        return _read(*name) if kind == "web" else _read("content", "")

    def show(self, kind, name):
        """A configuration is loaded"""
        d = self.stored(kind, name)
        if (kind, self.handle if kind == "folder" else name) in self.written and d is not None:
            self.reopened += 1
        title = {"folder": self.handle, "web": kind == "web" and name[1].split("/")[-1], "default": "PySwitch Default"}.get(kind, name)
        self.current = None if d is None else {"kind": kind, "name": title, "key": name, "data": d, "dirty": False, "handle": self.handle}
        if d is not None:
            self.typed = [None, None]
        self.failed = d is None

    def asked(self, answer):
        """Does a question come up before leaving the current configuration, and is it left?"""
        open_ = any(t is not None for t in self.typed) or bool(self.current and self.current["dirty"])
        return open_, answer or not open_

    def navigate(self, kind, name, answer):
        open_, leave = self.asked(answer)
        self.question = open_
        if not leave:
            return
        if self.url != (kind, name):
            self.url = (kind, name)
            self.show(kind, name)


def run_history(case, rec):
    w = webapp()
    w("reset")
    m = Model(w, case)
    for name, files in case["folders"].items():
        w("folder", name=name, files=files)
        m.folders[name] = dict(files)
    w("open", ports=m.ports, observer=case["observer"])
    s = w("state")
    c = s["config"]
    found = [p["name"] for p in m.ports if p["device"] == "controller"]
    expect(c is not None, lambda: f"nothing is opened at the start: {s['messages']}")
    expect(c["name"] in (found or ["PySwitch Default"]), lambda: f"'{c['name']}' is opened at the start, connected controllers: {found}")
    m.url = ("controller", c["name"]) if found else ("default", None)
    m.show(*m.url)
    compare(m, s, "at the start")
    setup = [["save_new", [n], True, True, False] for n, _ in case["presets"]]
    for (n, d) in case["presets"]:
        if n in m.presets or n in RESERVED:
            continue
        step(m, ["edit", d], case)
        step(m, ["save_new", [n], True, True, False], case)
    for op in case["ops"]:
        step(m, op, case, rec)
    rec.nontrivial_if(m.saved >= 2 and len({k for k, _ in m.written}) >= 2 and m.reopened)
    for k, _ in m.written:
        rec.label("saved to " + k)
    if m.reopened:
        rec.label("opened again", m.reopened)


def step(m, op, case, rec=None):
    w = m.w
    name, *args = op
    m.failed, m.question = False, None
    cur = m.current
    what = f"after {op}"
    alternatives = None         # folder files which may be either old or new
    success = None              # Is success reported?
    pick = lambda i: list(m.presets)[i % len(m.presets)]
    controllers = [p["name"] for p in m.ports]
    if name == "edit":
        if not cur:
            return
        d = {"inputs_py": args[0][0], "display_py": args[0][1]}
        w("edit", data=d)
        cur.update(data=d, dirty=True)
        m.typed = [None, None]
    elif name == "type":
        if not cur:
            return
        w("type", editor=args[0], text=args[1])
        m.typed[args[0]] = args[1]
    elif name == "apply":
        if not cur:
            return
        t = m.typed[args[0]]
        w("apply", editor=args[0])
        k = ("inputs_py", "display_py")[args[0]]
        cur["data"] = {**cur["data"], k: cur["data"][k] if t is None else t}
        cur["dirty"] = True
        m.typed = [None, None]
    elif name == "upload":
        if not cur:
            return
        files = [[n, t] for n, t in (("inputs.py", args[0]), ("display.py", args[1]), ("readme.txt", "x")) if t is not None]
        w("upload", files=files)
        cur["data"] = {"inputs_py": cur["data"]["inputs_py"] if args[0] is None else args[0], "display_py": cur["data"]["display_py"] if args[1] is None else args[1]}
        cur["dirty"] = True
        m.typed = [None, None]
    elif name == "restart":
        if not cur:
            return
        w("restart")
        m.typed = [None, None]
    elif name == "open_preset":
        if not m.presets:
            return
        n = pick(args[0])
        m.navigate("preset", n, args[1])
        w("load", path=["Local Presets", n], answer=args[1])
    elif name == "open_controller":
        if not controllers:
            return
        n = controllers[args[0] % len(controllers)]
        m.navigate("controller", n, args[1])
        w("load", path=["Connected Controllers", n], answer=args[1])
    elif name == "open_web":
        root, base, p = (EXAMPLES + TEMPLATES * 5)[args[0] % (len(EXAMPLES) + 5 * len(TEMPLATES))]
        m.navigate("web", (base, p), args[1])
        w("load", path=[root, *p.split("/")], answer=args[1])
    elif name == "open_default":
        m.navigate("default", None, args[0])
        w("load", path=["Examples", "PySwitch Default"], answer=args[0])
    elif name == "open_folder":
        open_folder(m, args[0], args[1])
        w("load", path=["Open Directory..."], pick=args[0], answer=args[1])
    elif name == "save":
        failing, full = args[0], args[1] and bool(cur) and cur["kind"] == "preset"
        if not cur or cur["kind"] in ("web", "default"):
            w("key", key="s")
            success = False
        else:
            ok = save(m, cur, cur["kind"], cur["handle"] if cur["kind"] == "folder" else cur["key"], failing, full)
            if ok is None:
                return                  # a controller which is not there: not of interest
            alternatives = failing if not ok and cur["kind"] == "folder" else None
            w("key", key="s", failing=failing, full=full)
            success = ok
            if ok:
                cur["dirty"] = False
    elif name == "save_new":
        names, end, answer, full = args
        names = [n for n in names if n not in RESERVED]
        free = next((n for n in names if n not in m.presets), None)
        success = False
        if cur and free is not None and not full:
            success = save(m, cur, "preset", free)
            cur["dirty"] = False
            m.navigate("preset", free, answer)
        w("saveTo", path=["Local Presets", "New Preset..."], prompts=names, answer=answer, full=full)
    elif name == "save_preset":
        if not m.presets:
            return
        n = pick(args[0])
        success = False
        if cur and args[1] and not args[2]:
            success = save(m, cur, "preset", n)
            cur["dirty"] = False
            m.navigate("preset", n, args[1])
        w("saveTo", path=["Local Presets", n], answer=args[1], full=args[2])
        m.question = True if cur else None
    elif name == "save_controller":
        if not controllers:
            return
        n = controllers[args[0] % len(controllers)]
        success = False
        if cur and args[1]:
            success = bool(save(m, cur, "controller", n))
            if success:
                cur["dirty"] = False
        w("saveTo", path=["Connected Controllers", n], answer=args[1])
    elif name == "save_last":
        success = False
        if cur and m.last in controllers:
            success = bool(save(m, cur, "controller", m.last))
            if success:
                cur["dirty"] = False
        w("key", key="t")
    elif name == "save_folder":
        success = False
        if cur:
            m.folders.setdefault(args[0], {})
            m.handle = args[0]
            success = save(m, cur, "folder", args[0], args[1])
            alternatives = None if success else args[1]
            if success:
                cur["dirty"] = False
                open_folder(m, args[0], True)
        w("saveTo", path=["Save to Directory..."], pick=args[0], failing=args[1])
    elif name == "rename":
        if not m.presets:
            return
        old = pick(args[0])
        new = pick(args[1]) if isinstance(args[1], int) else args[1]
        if new in RESERVED:
            return
        expect(w("preset", name=old, icon="fa-pen", prompts=[new], answer=args[2]), lambda: f"preset {old!r} is not offered for renaming")
        s = w("state")
        if new != old and new in m.presets:
            # Another preset would be lost
            now = dict(map(tuple, s["presets"]))
            expect(now == m.presets or (args[2] and s["confirms"] and now == {n: d for n, d in m.presets.items() if n not in (old, new)} | {new: m.presets[old]}),
                   lambda: f"renaming preset {old!r} to {new!r} destroys the preset which has this name already" + ("" if s["confirms"] else " (without asking)"))
            m.presets = now
        else:
            m.presets[new] = m.presets.pop(old)
    elif name == "delete":
        if not m.presets:
            return
        n = pick(args[0])
        if args[1]:
            m.presets.pop(n)
        expect(w("preset", name=n, icon="fa-trash", answer=args[1]), lambda: f"preset {n!r} is not offered for deletion")
    elif name == "write":
        dirname, file, text = args
        if dirname not in m.folders or any(t is not None for t in m.typed):
            return
        file = ("inputs.py", "display.py")[file]
        m.folders[dirname][file] = text
        watched = case["observer"] and cur and cur["kind"] == "folder" and cur["handle"] == dirname
        if watched and m.handle != dirname:
            return
        if watched and not cur["dirty"]:
            m.show("folder", None)
        w("write", name=dirname, file=file, text=text)
    elif name == "reload":
        w("open", ports=[{**p, "files": m.devices[p["id"]]} for p in m.ports], observer=case["observer"], hash=w("hashNow")[1:])
        m.current, m.typed, m.known = None, [None, None], False
        m.show(*m.url)
    elif name == "download":
        if not cur:
            return
        got = w("download")
        expect(len(got) == 1, lambda: f"{len(got)} files are downloaded")
        files = {n.split("/")[-1]: t for n, t in got[0][1]}
        want = {n.replace("_", "."): t for n, t in cur["data"].items()}
        expect({n: files.get(n) for n in want} == want, lambda: f"the downloaded files are {str(got)[:300]}, should be {str(want)[:300]}")
    s = w("state")
    if alternatives is not None:
        # A directory, a file of which could not be written
        for n in ("inputs.py", "display.py"):
            if n in alternatives:
                continue
            got = s["folders"].get(m.handle, {}).get(n)
            expect(got in (m.folders[m.handle].get(n), cur["data"][n.replace(".", "_")]), lambda: f"{what}: {n} contains {got!r}")
            if got is not None:
                m.folders[m.handle][n] = got
        for n in ("inputs.py", "display.py"):
            if n in s["folders"].get(m.handle, {}) and not s["folders"][m.handle][n]:
                m.folders[m.handle].setdefault(n, "")
    if success is not None:
        said = any(t == "S" and "saved" in x for t, x in s["messages"])
        expect(said == bool(success), lambda: f"{what}: {'no ' if success else ''}success is reported: {s['messages']}")
    if m.question is not None:
        expect(bool(s["confirms"]) == m.question, lambda: f"{what}: " + ("unsaved changes are given up without asking" if m.question else f"the user is asked without need: {s['confirms']}"))
    compare(m, s, what)


def open_folder(m, name, answer):
    m.folders.setdefault(name, {})
    before = m.handle
    m.handle = name
    if m.current and m.current["kind"] == "folder":
        open_, leave = m.asked(answer)
        m.question = open_
        if leave:
            m.show("folder", None)
    else:
        m.navigate("folder", None, answer)


def save(m, cur, kind, name, failing=(), full=False):
    d = cur["data"]
    if kind == "preset":
        if full:
            return False
        m.presets[name] = dict(d)
    elif kind == "controller":
        p = next((p for p in m.ports if p["name"] == name), None)
        if p is None or p["device"] != "controller":
            return False
        m.devices[p["id"]].update({"inputs.py": d["inputs_py"], "display.py": d["display_py"]})
        m.last = name
    else:
        if failing:
            return False
        m.folders[name].update({"inputs.py": d["inputs_py"], "display.py": d["display_py"]})
    m.saved += 1
    m.written.add((kind, name))
    return True


def compare(m, s, what):
    expect(not s["unhandled"], lambda: f"{what}: unhandled error {s['unhandled'][0][:300]}")
    got = dict(map(tuple, s["presets"]))
    expect(len(got) == len(s["presets"]), lambda: f"{what}: presets with the same name: {[n for n, _ in s['presets']]}")
    expect(got == m.presets, lambda: f"{what}: the presets are {str(got)[:400]}, should be {str(m.presets)[:400]}")
    expect(s["devices"] == m.devices, lambda: f"{what}: the files of the controllers are {str(s['devices'])[:400]}, should be {str(m.devices)[:400]}")
    folders = {n: {k: v for k, v in f.items()} for n, f in s["folders"].items()}
    expect({n: {k: v for k, v in f.items() if v} for n, f in folders.items() if f} == {n: {k: v for k, v in f.items() if v} for n, f in m.folders.items() if f},
           lambda: f"{what}: the directories contain {str(folders)[:400]}, should be {str(m.folders)[:400]}")
    m.folders = folders
    cur, c = m.current, s["config"]
    if cur is None:
        expect(c is None, lambda: f"{what}: {c['name']} is opened, but it does not exist")
        expect(not m.failed or any(t == "E" for t, _ in s["messages"]), lambda: f"{what}: nothing could be opened, but no error is shown")
        return
    expect(c is not None, lambda: f"{what}: {cur['kind']} {cur['name']!r} is not opened: {s['messages']}")
    expect(c["name"] == cur["name"], lambda: f"{what}: {c['name']!r} is opened instead of {cur['name']!r}")
    expect(c["data"] == cur["data"], lambda: f"{what}: the current configuration is {str(c['data'])[:300]}, should be {str(cur['data'])[:300]}")
    expect(c["dirty"] == s["mark"] == cur["dirty"], lambda: f"{what}: the configuration is {'' if cur['dirty'] else 'not '}changed since it has been saved; mark shown: {s['mark']}, internally {c['dirty']}")
    expect(s["running"] and {k: s["ran"][k] for k in ("inputs_py", "display_py")} == cur["data"], lambda: f"{what}: the emulator runs {str(s['ran'])[:300]} instead of the current configuration")
    typed = m.w("typed")
    shown = [cur["data"][k] if t is None else t for k, t in zip(("inputs_py", "display_py"), m.typed)]
    expect(typed == shown, lambda: f"{what}: the code tabs show {str(typed)[-200:]} instead of {str(shown)[-200:]}")


TESTS = [Test("history", histories, run_history, quick=600, thorough=12000)]
