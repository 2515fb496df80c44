"""C51: settings of the web application"""
from hypothesis import strategies as st

from ..app import expect
from ..kit import Test
from ..webapp import webapp


ID = "C51"
SCALE = 1
RULE = ("histories of entering settings in the settings tab (numbers in any notation, switches, channels, emptied fields), Apply, Reset of either group, opening other configurations, restarts and reloading the page, against a dictionary of what the user has set: "
        "the fields show it, the emulator runs with it, and the downloaded config.py, executed as Python, has the same effect in the firmware. Non-trivial: at least three different settings in effect when the emulator is started or config.py is downloaded")
NOTE = "Stand-ins as for C49. Settings the user did not make have the defaults of the firmware (given in the check); values outside of the ranges of the fields are not entered."

# Setting -> label, number of the field with this label, kind, default of the firmware
FIELDS = {
    "updateInterval": ("Update Interval (ms)", 0, "int", 200), "maxConsecutiveMidiMessages": ("Max. consecutive MIDI messages", 0, "int", 10), "clearBuffers": ("Clear MIDI Buffers at startup", 0, "bool", True),
    "maxRequestLifetimeMillis": ("Max. consecutive MIDI messages", 1, "int", 2000), "memoryWarnLimitBytes": ("RAM limit before warning", 0, "int", 15360), "displayDimFactorOn": ("Global display dim factor (On)", 0, "float", 1),
    "displayDimFactorOff": ("Global display dim factor (Off)", 0, "float", 0.2), "ledBrightnessOn": ("Global LED brightness (On)", 0, "float", 0.3), "ledBrightnessOff": ("Global LED brightness (Off)", 0, "float", 0.02),
    "exploreMode": ("Explore Mode", 0, "bool", False), "debugStats": ("Debug: Statistics", 0, "bool", False), "debugStatsInterval": ("Debug Stats: Interval", 0, "int", None),
    "debugBidirectionalProtocol": ("Debug: Protocol", 0, "bool", False), "debugUnparsedMessages": ("Debug: Unparsed messages", 0, "bool", False), "debugSentMessages": ("Debug: Sent messages", 0, "bool", False),
    "debugClientStats": ("Debug: Client statistics", 0, "bool", False),
    "inChannel": ("PySwitch Input Channel", 0, "in", None), "outChannel": ("PySwitch Output Channel", 0, "out", 0), "debug": ("Debug: MIDI channels", 0, "bool", False)}
COMM = ("inChannel", "outChannel", "debug")
DEFAULTS_SHOWN = {"debugStatsInterval": 2000}


def histories():
    def entry(n):
        kind, default = FIELDS[n][2:]
        if kind == "bool":
            v = st.booleans()
        elif kind == "int":
            v = st.one_of(st.integers(10, 99999).map(str), st.just(str(default or 2000)), st.just(""), st.integers(10, 999).map(lambda i: f"0{i}"))
        elif kind == "float":
            v = st.one_of(st.integers(0, 100).map(lambda i: str(i / 100)), st.sampled_from(["", "0", "1", ".5", "0.50", "1e-2", "1E-7", "0.30000000000000004", str(default)]), st.floats(0, 1).map(repr))
        else:
            v = st.one_of(st.integers(1, 16).map(str), st.just("") if kind == "out" else st.just("All"))
        return st.tuples(st.just("set"), st.just(n), v).map(list)
    sets = st.sampled_from(sorted(FIELDS)).flatmap(entry)
    op = st.one_of(sets, sets, sets, st.sampled_from([["apply", 0], ["apply", 1], ["reset", 0], ["reset", 1], ["reload"], ["restart"], ["download"], ["download"], ["open"], ["apply", 0]]))
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=4, max_size=24)})


def number(text, kind):
    if text == "":
        return None
    return int(text) if kind == "int" else float(text)


def run_history(case, rec):
    w = webapp()
    w("reset")
    w("open", ports=[], hash="controller/pyswitch-default")
    user = {}
    used = 0

    def fields():
        seen, res = {}, {}
        for i, (label, v) in enumerate(w("settings")):
            k = (label, seen.get(label, 0))
            seen[label] = k[1] + 1
            name = next((n for n, f in FIELDS.items() if f[:2] == k), None)
            if name:
                res[name] = (i, v)
        expect(set(res) == set(FIELDS), lambda: f"fields are missing: {set(FIELDS) - set(res)}")
        return res

    def effective(values, what):
        """What the firmware does with these settings"""
        res = {n: values.get(n, f[3]) for n, f in FIELDS.items()}
        if res["debugStatsInterval"] is None:
            res["debugStatsInterval"] = res["updateInterval"]
        for n in FIELDS:
            if n != "inChannel":
                expect(res[n] is not None, lambda: f"{what}: {n} is None")
        return res

    def compare(got, names, what):
        want = effective(user, "expected")
        got = effective(got, what)
        for n in names:
            expect(got[n] == want[n] and isinstance(got[n], bool) == isinstance(want[n], bool), lambda: f"{what}: {n} is {got[n]!r}, should be {want[n]!r}")

    for op, *args in case["ops"]:
        what = f"after {[op, *args]}"
        runs = w("state")["runs"]
        started = 1
        if op == "set":
            name, v = args
            w("setting", index=fields()[name][0], value=v)
            kind = FIELDS[name][2]
            if kind == "bool":
                user[name] = v
            elif kind in ("in", "out"):
                user[name] = None if v == "All" else None if v == "" else int(v) - 1
            else:
                user[name] = number(v, kind)
            if user[name] is None:
                user.pop(name)
            started = 0
        elif op == "apply":
            w("button", box=args[0], text="Apply")
        elif op == "reset":
            for n in list(user):
                if (n in COMM) == bool(args[0]):
                    user.pop(n)
            w("button", box=args[0], text="Reset")
        elif op == "reload":
            w("open", ports=[], hash="controller/pyswitch-default")
            runs = 0
        elif op == "restart":
            w("restart")
        elif op == "open":
            h = w("hashNow")
            w("hash", hash="controller/pyswitch-default" if "kitarist" in h else "example/Kemper%2520Profiler/MIDICaptain%2520Mini%25206/kitarist")
        elif op == "download":
            files = w("button", box=0, text="Download")
            expect(len(files) == 1 and files[0][0] == "config.py", lambda: f"downloaded: {files}")
            env = {}
            try:
                exec(compile(files[0][1]["$text"], "config.py", "exec"), env)
            except Exception as e:
                expect(False, f"the downloaded config.py fails: {e!r}")
            compare(env["Config"], [n for n in FIELDS if n not in COMM], "downloaded config.py")
            started = 0
            used = max(used, len(user))
        s = w("state")
        expect(s["runs"] >= runs + started, lambda: f"{what}: the emulator is not started: {s['messages']}")
        if started:
            compare({**s["ran"]["config"], **s["ran"]["comm"]}, FIELDS, f"{what}, emulator")
            used = max(used, len(user))
        if op != "set":
            # The fields are drawn again
            for n, (_, v) in (fields() if op in ("apply", "reset", "reload") else {}).items():
                kind, default = FIELDS[n][2:]
                u = user.get(n, DEFAULTS_SHOWN.get(n, default))
                want = u if kind == "bool" else ("All" if u is None else str(u + 1)) if kind in ("in", "out") else u
                expect(v == want if kind not in ("int", "float") else number(v, "float") == want, lambda: f"{what}: the field of {n} shows {v!r}, should be {want!r}")
    rec.nontrivial_if(used >= 3)


TESTS = [Test("history", histories, run_history, quick=400, thorough=10000)]
