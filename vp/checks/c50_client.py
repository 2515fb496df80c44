"""C50: connection of the web application to client devices"""
from hypothesis import strategies as st

from ..app import expect
from ..kit import Test
from ..webapp import webapp


ID = "C50"
SCALE = 1
RULE = ("histories of choosing a client (auto, ports, virtual, none), opening configurations for different clients and reloading with other ports, also while scans are running, with ports behind which are Kempers (answering late or early), controllers, "
        "loops, other devices, silent and broken ports, or which only exist in one direction, against the connection the last choice demands. Non-trivial: at least two different connections, one of them to a real port")
NOTE = ("Stand-ins as for C49. Ports have different names; Kempers answer within 900 ms (after 1 s of silence a port is taken as unused). Which of several Kempers is chosen is free. Choosing a client while a configuration is still loading is left out (the screen is blocked).")

NAMES = ["Profiler", "Ctl (USB)", "A+B #1", "Köln", "1"]
CONFIGS = {"kemper": "example/Kemper%2520Profiler/MIDICaptain%2520Mini%25206/kitarist", "boomerang": "example/Boomerang%2520III%2520Phrase%2520Sampler/MIDICaptain%2520Mini%25206/manderscripts", "default": "controller/pyswitch-default"}
REQUEST = [0xf0, 0, 0x20, 0x33, 2, 0x7f, 0x41, 0, 4, 1, 0xf7]
ANSWER = [0xf0, 0, 0x20, 0x33, 0, 0, 1, 0, 4, 1]
AUTO, NONE, VIRTUAL, BOOMERANG = "^Auto-detect client device", "Not connected", "Virtual Kemper", "boomerang"


def histories():
    byte = st.integers(0, 127)
    noise = st.one_of(
        st.just("echo"), st.tuples(st.integers(0x80, 0xdf), byte, byte).map(list),
        st.tuples(st.sampled_from([0x7e, 0x00, 0x01]), byte, byte, byte, byte).map(lambda t: [0xf0, t[0], t[1] if t[0] else 0x21, t[2], 0, 0, 1, 0, 4, 1, *t[3:], 0xf7]))
    port = st.fixed_dictionaries({
        "name": st.sampled_from(NAMES), "device": st.sampled_from(["kemper", "kemper", "controller", "both", "silent", "noise", "broken"]), "kind": st.sampled_from(["", "", "", "", "in", "out"]),
        "delay": st.sampled_from([1, 1, 20, 300, 900]), "head": st.tuples(st.sampled_from([0, 2, 127]), st.sampled_from([0, 127])).map(list), "value": st.tuples(byte, byte).map(list), "noise": st.lists(noise, max_size=3)})
    ports = st.lists(port, max_size=4, unique_by=lambda p: p["name"])
    gap = st.sampled_from([0, 0, 50, 400, 950, 1500, 3000])
    choice = st.one_of(st.sampled_from([AUTO, AUTO, NONE, VIRTUAL, BOOMERANG]), st.integers(0, 4))
    op = st.one_of(
        st.tuples(st.just("choose"), choice, gap), st.tuples(st.just("choose"), choice, gap), st.tuples(st.just("open"), st.sampled_from(sorted(CONFIGS)), gap),
        st.tuples(st.just("reload"), ports, st.booleans(), gap), st.tuples(st.just("restart"),), st.tuples(st.just("check"),), st.tuples(st.just("check"),))
    return st.fixed_dictionaries({"ports": ports, "midi": st.integers(0, 9), "config": st.sampled_from(["kemper", "kemper", "boomerang"]), "ops": st.lists(op.map(list), min_size=1, max_size=8)})


class State:
    pass


def start(w, m, ports, midi, config, gap):
    m.ports = [{**p, "id": str(i)} for i, p in enumerate(ports)]
    m.midi = midi
    m.pairs = [p for p in m.ports if not p["kind"]] if midi else []
    m.config = config
    w("open", ports=m.ports, midi=midi, hash=CONFIGS[config], ms=0)
    expect(w("loaded", ms=gap), lambda: f"{config} configuration does not get loaded: {w('state')['messages']}")
    connect(m)


def connect(m):
    """Which connections are right"""
    kempers = [p["id"] for p in m.pairs if p["device"] in ("kemper", "both")]
    if m.choice == NONE:
        m.allowed = [None]
    elif m.choice == VIRTUAL:
        m.allowed = ["virtual"]
    elif m.choice == AUTO:
        m.allowed = ["silent"] if m.config == "boomerang" else (kempers or ["virtual"])
    elif m.choice == BOOMERANG:
        m.allowed = ["silent"]
    else:
        m.allowed = [p["id"] for p in m.pairs if p["name"] == m.choice] or [None]


def run_history(case, rec):
    w = webapp()
    w("reset")
    m = State()
    m.choice, m.seen = AUTO, set()
    start(w, m, case["ports"], case["midi"] > 0, case["config"], 0)
    for op, *args in case["ops"]:
        if op == "choose":
            c, gap = args
            if isinstance(c, int):
                if not m.pairs:
                    continue
                c = m.pairs[c % len(m.pairs)]["name"]
            expect(w("client", path=[c], wait=0, ms=gap), lambda: f"client '{c}' is not offered")
            m.choice = c
            connect(m)
        elif op == "open":
            if args[0] == m.config:
                continue
            m.config = args[0]
            w("go", hash=CONFIGS[args[0]], ms=args[1])
            connect(m)
        elif op == "reload":
            start(w, m, args[0] or [{k: v for k, v in p.items() if k != "id"} for p in m.ports], m.midi and args[1] or m.midi, m.config, args[2])
        elif op == "restart":
            w("restart")
        else:
            check(w, m, rec)
    check(w, m, rec)
    rec.nontrivial_if(len(m.seen) > 1 and any(s not in (None, "virtual", "silent") for s, _ in m.seen))


def check(w, m, rec):
    w("advance", ms=4000)
    s = w("state")
    what = f"client '{m.choice}' for {m.config}, ports " + str([(p["name"], p["device"], p["kind"]) for p in m.ports])
    names = {p["id"]: p["name"] for p in m.ports}
    # Where is it connected to? A request for the rig volume shows it
    w("queue")
    w("sent")
    connected = w("midiOut", data=REQUEST)
    w("advance", ms=1000)
    sent = [p for p, d in w("sent") if d == REQUEST]
    expect(len(sent) <= 1, lambda: f"{what}: a sent message goes to {[names[p] for p in sent]}")
    got = sent[0] if sent else None
    if not sent and connected:
        # Does it behave like a Kemper?
        got = "virtual" if any(x[:10] == ANSWER for x in w("queue")) else "silent"
    expect(got in m.allowed, lambda: f"{what}: connected to {names.get(got, got)}, should be {[names.get(a, a) for a in m.allowed]}")
    expect(s["client"] == names.get(got), lambda: f"{what}: connected to {names.get(got, got)}, but {s['client']} is shown")
    # Messages of this port, and only those, reach the emulator
    w("queue")
    for i, p in enumerate(m.ports):
        if p["kind"] != "out":
            w("midiIn", id=p["id"], data=[0xb0, 7, int(p["id"])])
    q = w("queue")
    want = [[0xb0, 7, int(got)]] if got in names else []
    if got in names or got is None:
        expect((q or []) == want, lambda: f"{what}: connected to {names.get(got)}, the emulator receives {q} (third byte: number of the port)")
    else:
        expect(not any(x[:2] == [0xb0, 7] for x in q or []), lambda: f"{what}: messages of ports reach the emulator")
    m.seen.add((got, m.choice))
    rec.label("connected to " + ("a port" if got in names else str(got)))


TESTS = [Test("history", histories, run_history, quick=500, thorough=15000)]
