import contextlib
import io
import re
from fractions import Fraction

from hypothesis import strategies as st
from ..kit import Test
from ..app import App, expect, label, root, splash_callback
from ..world import World, build, dump
from ..kemperdev import Device
from .. import fakes, gens, mapspec as ms, zoo
from .c04_requests import SPECS

ID = "C41"
RULE = ("Random sequences of measurements and of main loop passes with random durations, memory figures, numbers to format and MIDI messages, compared with references computed from scratch (exact fractions for sizes); random configurations and histories run with and without the debugging options, which may not change what the controller does, "
        "and the messages printed by them. Non-trivial: at least two reports of several measurements, a change of the unit, a message with contents, or a history with messages.")
NOTE = "Times are integer milliseconds of a floating point clock, so one millisecond per measurement is tolerated."


# ---------------------------------------------------------------- measurements

def measure_cases():
    op = st.one_of(
        st.tuples(st.just("start"), st.just(0)), st.tuples(st.just("finish"), st.just(0)), st.tuples(st.just("finish"), st.just(0)),
        st.tuples(st.just("time"), st.one_of(st.integers(0, 40), st.integers(0, 3000))), st.tuples(st.just("time"), st.integers(0, 40)),
        st.tuples(st.just("update"), st.just(0)), gens.rarely(st.tuples(st.just("reset"), st.just(0)), ("update", 0), 5),
    )
    return st.fixed_dictionaries({"interval": st.sampled_from([100, 1000, 10, 200, 5000]), "ops": st.lists(op, min_size=4, max_size=60), "listeners": st.integers(1, 3)})


def run_measure(case, rec):
    with World() as w:
        m = w.get("controller.measure", "RuntimeMeasurement")(case["interval"], "x")
        reports = []

        class L:
            def __init__(self, i):
                self.i = i

            def measurement_updated(self, mm):
                reports.append((self.i, mm is m, mm.value, mm.sum, mm.average, mm.calls))

        for i in range(case["listeners"]):
            m.add_listener(L(i))
        diffs, start = [], None
        last = None
        good = 0

        def compare(got, what):
            value, total, average, calls = got
            n = len(diffs)
            expect(calls == n, lambda: f"{calls} measurements counted {what}, expected {n}: {diffs}")
            expect(abs(total - sum(diffs)) <= n, lambda: f"sum is {total} {what}, expected {sum(diffs)}")
            expect(abs(value - max(diffs, default=0)) <= (1 if n else 0), lambda: f"maximum is {value} {what}, expected {max(diffs, default=0)}")
            expect(average == (total // n if n else 0), lambda: f"average is {average} {what}, expected {total}/{n}")

        for op, arg in case["ops"]:
            if op == "time":
                w.clock.advance(arg)
            elif op == "start":
                m.start()
                start = w.clock.ms
            elif op == "finish":
                m.finish()
                if start is not None:
                    diffs.append(w.clock.ms - start)
            elif op == "reset":
                m.reset()
                diffs, start = [], None
            else:
                reports.clear()
                m.update()
                age = None if last is None else w.clock.ms - last
                if reports:
                    expect(age is None or age >= case["interval"] - 1, lambda: f"reported again after {age} ms with an interval of {case['interval']}")
                    expect([r[0] for r in reports] == list(range(case["listeners"])) and all(r[1] for r in reports), lambda: f"listeners called: {reports}")
                    for r in reports:
                        compare(r[2:], "in the report")
                    if len(diffs) > 1:
                        good += 1
                    diffs, start = [], None
                    last = w.clock.ms
                else:
                    expect(age is not None and age <= case["interval"] + 1, lambda: f"no report after {age} ms with an interval of {case['interval']}")
            compare((m.value, m.sum, m.average, m.calls), f"after {op}")
        rec.nontrivial_if(good >= 2)


# ---------------------------------------------------------------- main loop

def loop_cases():
    return st.fixed_dictionaries({
        "interval": st.sampled_from([None, 300, 1000, 50]), "update": st.sampled_from([None, 100, 20]), "free": st.lists(st.integers(0, 300000), min_size=1, max_size=5),
        "passes": st.lists(st.tuples(st.integers(0, 60), st.lists(st.integers(0, 30), min_size=0, max_size=3), st.integers(0, 3)), min_size=10, max_size=80),
    })


def run_loop(case, rec):
    with World() as w:
        config = {"debugStats": True}
        if case["interval"] is not None:
            config["debugStatsInterval"] = case["interval"]
        if case["update"] is not None:
            config["updateInterval"] = case["update"]
        interval = case["interval"] if case["interval"] is not None else case["update"] if case["update"] is not None else 200
        app = App(w, [{"actions": []}], config=config)
        times, delays, lines = [], [], []
        original = app.port.receive

        def receive():
            times.append(w.clock.ms)
            if delays:
                w.clock.advance(delays.pop(0))
            return original()

        app.port.receive = receive

        class Out(io.StringIO):
            def write(self, s):
                if s.strip():
                    lines.append((len(times), w.clock.ms, s.strip()))
                return len(s)

        with contextlib.redirect_stdout(Out()):
            app.init()
            lines.clear()
            times.clear()
            first = 0
            for k, (idle, ds, msgs) in enumerate(case["passes"]):
                delays[:] = ds
                for _ in range(msgs):
                    app.port.push(("cc", 1, 2))
                w.mem_free = case["free"][k % len(case["free"])]
                w.clock.advance(idle)
                app.c.tick()
        shown, when = [], None
        # measurement k is the time between the receiving number k and the next one; the one during
        # which a report is made is dropped, because the report starts anew
        begin = 0
        for n, ms, text in lines:
            m = re.fullmatch(r"\S+ ?: Max (\d+)ms, Avg (\d+)ms, Calls: (\d+), Free: (.+)", text)
            if m is None:
                continue
            want = [times[i + 1] - times[i] for i in range(begin, n - 1)]
            top, avg, calls = (int(x) for x in m.groups()[:3])
            shown.append(calls)
            ref = (max(want, default=0), sum(want) / len(want) if want else 0, len(want))
            # before the first receiving, the measurement has possibly been started in the initialization already
            expect(calls == len(want), lambda: f"{calls} calls reported in {text!r}, expected {ref}")
            expect(abs(top - ref[0]) <= 1 and abs(avg - ref[1]) <= 2, lambda: f"{text!r} reported, expected maximum, average, calls {ref}: {want}")
            if when is not None:
                expect(ms - when >= interval - 1, lambda: f"reports after {ms - when} ms with an interval of {interval}")
            when = ms
            begin = n
        rec.nontrivial_if(len([c for c in shown if c > 1]) >= 2)


# ---------------------------------------------------------------- memory

def sizes():
    return st.one_of(st.integers(0, 2000), st.integers(0, 300000), st.integers(0, 10 ** 9), st.sampled_from([1023, 1024, 1025, 1048575, 1048576]))


def memory_cases():
    return st.fixed_dictionaries({"free": sizes(), "alloc": st.integers(1, 300000), "prefix": st.sampled_from([None, "", "Start", "x" * 70]), "started": gens.rarely(st.just(False), True),
                                  "ops": st.lists(st.tuples(st.one_of(sizes(), st.none()), st.sampled_from([None, "abc", "Controller: update", "y" * 65]), st.booleans()), min_size=2, max_size=10)})


UNITS = ["B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB", "ZiB", "YiB"]


def size_ok(text, num):
    """num in the largest unit in which it is at least one, to one decimal"""
    m = re.fullmatch(r"\s*(-?\d+\.\d) ?(\S+)", text.rstrip())
    if m is None:
        return False
    if m.group(2) not in UNITS:
        return False
    i = UNITS.index(m.group(2))
    f = Fraction(num) / 1024 ** i
    # exactly at the limits, the rounding of floating point numbers decides
    if (i < 8 and abs(f) > 1024 * (1 + Fraction(1, 10 ** 12))) or (i > 0 and abs(f) < 1 - Fraction(1, 10 ** 12)):
        return False
    return abs(Fraction(m.group(1)) - f) <= Fraction(51, 1000) + abs(f) * Fraction(1, 10 ** 12)


def prefix_ok(line, prefix):
    head = (prefix + " ") if prefix else ""
    return line.startswith(head + "." * max(0, 60 - len(head)) + " ")


def run_memory(case, rec):
    with World() as w:
        state = {"free": case["free"]}
        mem = w.get("stats", "Memory")
        mod = w.imp("stats")
        mod.mem_free = lambda: state["free"]
        mod.mem_alloc = lambda: case["alloc"]
        total = case["free"] + case["alloc"]
        out = io.StringIO()

        def take():
            r = out.getvalue()
            out.seek(0)
            out.truncate()
            return r

        changes = 0
        with contextlib.redirect_stdout(out):
            if case["started"]:
                mem.start(case["prefix"])
                line = take()
                m = re.search(r"Starting with (.+?B) of (.+?B) *\n", line)
                expect(m and size_ok(m.group(1), case["free"]) and size_ok(m.group(2), total) and prefix_ok(line, case["prefix"]), lambda: f"{line!r} for {case['free']} of {total} bytes free")
            last = case["free"]
            for free, prefix, changed in case["ops"]:
                if free is not None:
                    state["free"] = free
                free = state["free"]
                mem.watch(prefix, only_if_changed=changed)
                line = take()
                if not case["started"] or (changed and free == last):
                    expect(line == "", lambda: f"printed {line!r} (started: {case['started']}, only changes: {changed}, {last} -> {free})")
                    continue
                diff = last - free
                m = re.search(r"(Allocated|Released|         ) +(-?[\d.]+ \w+)? +-> +(-?[\d.]+ ?\w+) +(-?\d+)%", line)
                expect(m is not None and prefix_ok(line, prefix), lambda: f"cannot read {line!r}")
                word, by, now, perc = m.groups()
                expect(word.strip() == ("Allocated" if diff > 0 else "Released" if diff < 0 else ""), lambda: f"{line!r} for {last} -> {free}")
                expect((by is None) if diff == 0 else (by is not None and (size_ok(by, diff))), lambda: f"{line!r} for a difference of {diff}")
                expect(size_ok(now, free), lambda: f"{line!r} for {free} free")
                expect(abs(int(perc) - Fraction(free * 100, total)) <= 1, lambda: f"{line!r} for {free} of {total}")
                changes += diff != 0
                last = free
        rec.nontrivial_if(changes >= 2)


# ---------------------------------------------------------------- sizes

def size_cases():
    num = st.one_of(st.integers(-10 ** 6, 10 ** 6), st.integers(0, 10 ** 28), st.tuples(st.integers(0, 9), st.integers(-2, 2)).map(lambda t: 1024 ** t[0] + t[1]), st.floats(-1e30, 1e30, allow_nan=False))
    return st.fixed_dictionaries({"num": num, "pad": st.integers(-2, 30), "suffix": st.sampled_from([None, "B", "", "Bit"])})


def run_size(case, rec):
    with World() as w:
        f = w.get("misc", "format_size")
        fill = w.get("misc", "fill_up_to")
        kw = {} if case["suffix"] is None else {"suffix": case["suffix"]}
        plain = f(case["num"], **kw)
        suffix = "B" if case["suffix"] is None else case["suffix"]
        expect(plain.endswith(suffix), lambda: f"format_size({case['num']!r}) = {plain!r}")
        std = (plain[:-len(suffix)] if suffix else plain) + "B"
        expect(size_ok(std, case["num"]), lambda: f"format_size({case['num']!r}) = {plain!r}")
        padded = f(case["num"], case["pad"], **kw)
        expect(padded.startswith(plain) and set(padded[len(plain):]) <= {" "} and len(padded) == max(len(plain), case["pad"]), lambda: f"format_size({case['num']!r}, {case['pad']}) = {padded!r}")
        for ch in (" ", "."):
            t = fill(plain, case["pad"], ch)
            expect(t == plain + ch * (case["pad"] - len(plain)), lambda: f"fill_up_to({plain!r}, {case['pad']}, {ch!r}) = {t!r}")
        rec.nontrivial_if(abs(case["num"]) >= 1024)


# ---------------------------------------------------------------- texts of messages

def text_cases():
    return st.one_of(gens.any_message, gens.sx(40), st.none())


def check_text(text, r):
    name = {"cc": "ControlChange", "pc": "ProgramChange", "sx": "SystemExclusive"}.get(r[0])
    if name:
        expect(text.endswith(f" ({name})"), lambda: f"{text!r} for {r}")
    if r[0] == "cc":
        expect(text == f"{r[1]}, {r[2]} (ControlChange)", lambda: f"{text!r} for {r}")
    elif r[0] == "pc":
        expect(text == f"{r[1]} (ProgramChange)", lambda: f"{text!r} for {r}")
    elif r[0] == "sx":
        lists = "".join("[" + ", ".join(format(x, "x") for x in part) + "]" for part in r[1:])
        chars = "".join(map(chr, r[2]))
        expect(text == f"{lists} String: {chars} (SystemExclusive)", lambda: f"{text!r} for {r}")


def run_text(case, rec):
    with World() as w:
        f = w.get("debug_tools", "stringify_midi_message")
        if case is None:
            expect(f(None) == "None", lambda: f"no message is shown as {f(None)!r}")
            return
        m = build(case)
        text = f(m)
        check_text(text, case)
        if case[0] == "unknown":
            expect(text == f"{case[1]} (MIDIUnknownEvent)", lambda: f"{text!r} for {case}")
        elif case[0] == "raw":
            expect(text.endswith(f"({type(m).__name__})"), lambda: f"{text!r} for {case}")
        rec.nontrivial_if(True)
        rec.label(case[0])


# ---------------------------------------------------------------- debugging options

OPTIONS = ["debugUnparsedMessages", "debugSentMessages", "debugClientStats", "debugBidirectionalProtocol", "debugStats"]


def debug_cases():
    @st.composite
    def f(draw):
        comp = draw(zoo.composition())
        n = len(comp["switches"])
        one = st.one_of(
            st.tuples(st.just("tap"), st.integers(0, n - 1), st.sampled_from([10, 300, 900])), st.tuples(st.just("tap"), st.integers(0, n - 1), st.sampled_from([10, 300, 900])),
            st.tuples(st.just("turn"), st.integers(0, 1), st.integers(-30, 30)), st.tuples(st.just("pedal"), st.integers(0, 1), st.integers(0, 65535)),
            st.tuples(st.just("rig"), st.integers(0, 624), st.just(0)), st.tuples(st.just("midi"), gens.any_message, st.just(0)),
            gens.rarely(st.tuples(st.just("mute"), st.booleans(), st.just(0)), ("wait", 500, 0), 2), st.tuples(st.just("wait"), st.sampled_from([10, 450, 2500]), st.just(0)))
        return {"comp": comp, "ops": draw(st.lists(one, min_size=3, max_size=12)), "protocol": draw(gens.rarely(st.just(False), True)),
                "options": draw(st.lists(st.sampled_from(OPTIONS), min_size=1, unique=True)),
                "exclude": draw(st.sampled_from([None, [], ["SystemExclusive"], ["ControlChange", "ProgramChange"], ["ProgramChange"]]))}
    return f()


def history(case, config):
    out = io.StringIO()
    with World() as w:
        comp = case["comp"]
        labels = [label(w, y=24 * i, h=24) for i in range(comp["labels"])]
        cb = w.get("clients.kemper", "KemperRigNameCallback")(show_rig_id=True)
        plain = label(w, y=200, h=30, back=None, text="plain")
        name = label(w, y=120, h=60, callback=cb, text="x", maxTextWidth=220)
        inputs = zoo.build(w, comp, labels, plain)
        kw = {"protocol": w.get("clients.kemper", "KemperBidirectionalProtocol")(30)} if case["protocol"] else {}
        app = App(w, inputs, config=config, splash=splash_callback(w, root(w, [*labels, name, plain])), **kw)
        dev = Device(rig=3, bidirectional=case["protocol"])
        dev.params.update({(4, 0): 120 * 64, (4, 1): 8192, (0, 11): 0, (0x7c, 0): 0})
        dev.attach(app)
        trace = []
        kinds = {k: [i for i, d in enumerate(inputs) if d.get("kind", "switch") == k] for k in ("switch", "pot", "encoder")}
        with contextlib.redirect_stdout(out):
            app.init()

            def go(ms):
                end = w.clock.ms + ms
                while w.clock.ms < end:
                    dev.tick()
                    app.tick()

            go(300)
            for op, a, b in case["ops"]:
                if op == "tap":
                    i = kinds["switch"][a % len(kinds["switch"])]
                    app.press(i)
                    go(b)
                    app.release(i)
                elif op == "turn" and kinds["encoder"]:
                    app.models[kinds["encoder"][a % len(kinds["encoder"])]].position += b
                elif op == "pedal" and kinds["pot"]:
                    app.models[kinds["pot"][a % len(kinds["pot"])]].value = b
                elif op == "rig":
                    dev.load(a)
                elif op == "midi":
                    app.port.push(a)
                elif op == "mute":
                    dev.mute = a
                elif op == "wait":
                    go(a)
                go(30)
                trace.append((len(app.port.sent), app.leds(), [d.text for d in (*labels, name, plain)], [d.back_color for d in labels]))
        return app.port.sent, trace


def run_debug(case, rec):
    plain_sent, plain_trace = history(case, {})
    config = {o: True for o in case["options"]}
    if case["exclude"] is not None:
        config["excludeMessageTypes"] = case["exclude"]
    sent, trace = history(case, config)
    expect(sent == plain_sent, lambda: f"messages sent differ with {config}: {[(a, b) for a, b in zip(sent, plain_sent) if a != b][:3]}, {len(sent)} instead of {len(plain_sent)}")
    for k, (a, b) in enumerate(zip(trace, plain_trace)):
        expect(a == b, lambda: f"the state after operation {k} differs with {config}: {a} instead of {b}")
    rec.nontrivial_if(len(sent) > 5)


# ---------------------------------------------------------------- messages shown

def shown_cases():
    return st.fixed_dictionaries({"sent": st.booleans(), "unparsed": st.booleans(), "exclude": st.sampled_from([None, [], ["SystemExclusive"], ["ControlChange", "ProgramChange"], ["MIDIUnknownEvent"]]),
                                  "ops": st.lists(st.one_of(st.tuples(st.just("set"), st.integers(0, 4), gens.b7), st.tuples(st.just("rx"), gens.any_message, st.just(0)), st.tuples(st.just("rx"), st.tuples(st.just("cc"), st.sampled_from([11, 12]), gens.b7), st.just(0))), min_size=2, max_size=20)})


def run_shown(case, rec):
    with World() as w:
        port = fakes.Port()
        config = {"debugSentMessages": case["sent"], "debugUnparsedMessages": case["unparsed"]}
        if case["exclude"] is not None:
            config["excludeMessageTypes"] = case["exclude"]
        c = w.get("controller.client", "Client")(port, config)
        maps = [ms.make(w, s, f"m{i}", request=i != 3) for i, s in enumerate(SPECS)]
        f = w.get("debug_tools", "stringify_midi_message")
        # the values of CC 11 are always received
        got = ms.Listener()
        c.register(maps[3], got)
        total = 0
        for op, a, b in case["ops"]:
            out = io.StringIO()
            got.calls.clear()
            with contextlib.redirect_stdout(out):
                if op == "set":
                    c.set(maps[a], b)
                else:
                    c.receive(build(a))
            if op == "set":
                concerned = port.take() if case["sent"] else port.take()[:0]
            else:
                concerned = [a] if case["unparsed"] and not got.calls else []
                expect(bool(got.calls) == (a[:2] == ("cc", 11) or list(a[:2]) == ["cc", 11]), lambda: f"{a} is parsed: {got.calls}")
            want = []
            for r in concerned:
                m = build(r)
                if type(m).__name__ not in (case["exclude"] or []):
                    want.append(f(m))
            expect(out.getvalue() == "".join(x + "\n" for x in want), lambda: f"{op} {a} prints {out.getvalue()!r}, expected {want} (options {config})")
            total += len(want)
        rec.nontrivial_if(total)


TESTS = [
    Test("measure", measure_cases, run_measure, quick=1500, thorough=40000),
    Test("loop", loop_cases, run_loop, quick=600, thorough=20000),
    Test("memory", memory_cases, run_memory, quick=600, thorough=20000),
    Test("size", size_cases, run_size, quick=1500, thorough=50000),
    Test("text", text_cases, run_text, quick=1000, thorough=30000),
    Test("shown", shown_cases, run_shown, quick=800, thorough=20000),
    Test("debug", debug_cases, run_debug, quick=200, thorough=8000),
]
