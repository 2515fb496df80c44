"""C45: files are transferred completely and unchanged over the MIDI bridge"""
from collections import Counter

from hypothesis import strategies as st

from ..app import expect
from ..bridge import ACK, BUFFER, DATA, FILE, MANUFACTURER, REQUEST, START, Device, message, number, pack, parse, web
from ..kit import Test

ID = "C45"
SCALE = 2
RULE = ("transfer: the application's device controller (node, stand-in for Web MIDI) connects to, loads from and saves to a controller which is an independent implementation of the documented protocol (7 bit packing, CRC-16, "
        "stop and wait), with foreign, duplicated, damaged and lost messages; content and outcome of every operation are compared. bridges: several transfers at once in both directions, any chunk size. "
        "ports: connecting and scanning with several ports. Non-trivial: at least three chunks transferred (ports: at least two ports)")
TECHNIQUE = "property-based testing (Hypothesis): differential against an independent implementation of the protocol, fault injection on the wire"

APP = "A"


def damage(raw, spec):
    """Changes up to two neighbouring bytes of the payload, or of the checksum"""
    raw = bytearray(raw)
    lo, hi = (8, len(raw) - 1) if spec[0] and len(raw) > 9 else (5, 8)
    i = lo + spec[1] % (hi - lo)
    raw[i] ^= 1 + spec[2] % 127
    if i + 1 < hi:
        raw[i + 1] ^= spec[3] % 128
    return bytes(raw)


def foreign(spec):
    kind, data = spec
    data = bytes(b & 127 for b in data)
    if kind == 0:
        return bytes((0xf0, 0x00, 0x20, 0x33)) + data + b"\xf7"
    if kind == 1:
        return bytes((0xb0,)) + (data + b"\0\0")[:2]
    if kind == 2:
        return b"\xf8"
    if kind == 3:       # like a message of the bridge, wrong checksum
        m = bytearray(message(1 + data[0] % 4 if data else 1, data))
        m[6] ^= 1
        return bytes(m)
    if kind == 4:       # unknown command
        return message(5 + len(data), data)
    return bytes((0xf0, *MANUFACTURER)) + data[:3] + b"\xf7"


def pump(w, dev, faults, rec, port=APP, limit=5000):
    """Exchanges messages until there are none left. Returns whether all of them arrived as they were."""
    n = 0
    clean = True
    todo = [(port, d) for d in dev.out]
    dev.out = []
    while True:
        todo += [("dev", d) for to, d in w.take() if to == port]
        if not todo:
            return clean
        to, raw = todo.pop(0)
        expect(isinstance(raw, bytes), lambda: f"invalid MIDI data sent: {raw}")
        if to == "dev":
            try:
                expect(parse(raw) is not None, lambda: f"message of the application not understood: {raw.hex()}")
            except ValueError as e:
                expect(False, f"invalid message sent by the application ({e}): {raw.hex()}")
            expect(len(raw) <= BUFFER, lambda: f"message of {len(raw)} bytes does not fit into the input buffer of the controller ({BUFFER} bytes)")
        expect(n < limit, "endless transfer")
        f = faults.get(n) or ("",)
        n += 1
        send = [raw]
        if f[0] == "lose":
            send, clean = [], False
        elif f[0] == "damage":
            send, clean = [damage(raw, f[1])], False
        elif f[0] == "twice":
            send = [raw, raw]
            clean &= to != "dev"
        elif f[0] == "foreign" and to != "dev":
            send = [foreign(f[1]), raw]
        elif f[0] == "other port" and to != "dev":
            w("deliver", to="B", data=list(raw))
        if f[0]:
            rec.label(f[0])
        for d in send:
            if to == "dev":
                try:
                    dev.receive(d)
                except ValueError:
                    dev.error("Checksum mismatch")
            else:
                w("deliver", to=port, data=list(d))
        todo += [(port, d) for d in dev.out]
        dev.out = []


def run_transfer(case, rec):
    w = web()
    w("reset", ports=["B", APP], seed=case["seed"])
    dev = Device(case["files"], first_id=case["first"])
    w("start", id="connect", what="connect", args=[APP])
    pump(w, dev, {}, rec)
    expect(w.results.get("connect", [""])[0] == "ok", lambda: f"connecting to a controller: {w.results}")
    done = 0
    chunks = 0
    for no, op in enumerate(case["ops"]):
        faults = {k: f for k, f in op["faults"]}
        stored = len(dev.stored)
        what = f"operation {no + 1} ({op['op']} {op['path']})"
        if op["op"] == "load":
            w("start", id=no, what="load", args=[op["path"]])
        else:
            w("start", id=no, what="save", args=[op["path"], op["text"]])
        clean = pump(w, dev, faults, rec)
        res = w.results.get(str(no))
        if op["op"] == "load":
            want = dev.files.get(op["path"])
            if want:
                chunks = max(chunks, len(want) // 100)
            expect(res is None or res[0] != "ok" or res[1] == want, lambda: f"{what}: loaded {res[1]!r} instead of {want!r}")
            if clean:
                expect(res is not None, lambda: f"{what} does not end, though all messages arrive")
                expect(res[0] == ("ok" if want else "failed"), lambda: f"{what}: {res}, though all messages arrive")
                if not want:
                    expect("not found" in res[1], lambda: f"{what}: error of the controller shown as {res[1]!r}")
        else:
            new = dev.stored[stored:]
            chunks = max(chunks, len(op["text"]) // 65)
            expect(all(x == (op["path"], op["text"]) for x in new), lambda: f"{what}: stored {new}, to be saved: {op['text']!r}")
            if clean:
                expect(len(new) == 1, lambda: f"{what}: stored {len(new)} times")
                expect(res == ["ok", None], lambda: f"{what}: {res}, though the file has been stored")
        rec.label("clean" if clean else "faulty")
        done += clean
        w("advance", ms=op["pause"])
    expect(not [e for e in dev.errors if "not found" not in e and "hecksum" not in e and "chunk" not in e], lambda: f"errors sent to the controller: {dev.errors}")
    rec.nontrivial_if(done and chunks >= 3)


def run_bridges(case, rec):
    w = web()
    w("reset", ports=[], seed=case["seed"], random=None if case["seed"] is not None else case["random"])
    w("bridge", id="x", files=case["webfiles"])
    dev = Device(case["files"], first_id=case["first"], overwrite=False)
    want_web, want_dev, errors_web, errors_dev = Counter(), Counter(), 0, 0
    todo = []
    ops = list(case["ops"])
    n = chunks = 0
    while ops or todo:
        n += 1
        expect(n < 20000, "endless transfer")
        if ops and (not todo or n >= ops[0]["at"]):
            op = ops.pop(0)
            text, path, size = op["text"], op["path"], op["size"]
            if op["op"] == "send":
                w("call", bridge="x", method="sendString", args=[path, text, size])
                want_dev[path, text] += 1
            elif op["op"] == "request":
                w("call", bridge="x", method="request", args=[path, size])
                if dev.files.get(path):
                    text = dev.files[path]
                    want_web[path, text] += 1
                else:
                    errors_web += 1
            elif op["op"] == "device sends":
                dev.send_text(path, text, size)
                want_web[path, text] += 1
            else:
                payload = number(size, 3) + pack(path.encode())
                dev.emit(REQUEST, payload)
                if case["webfiles"].get(path):
                    text = case["webfiles"][path]
                    want_dev[path, text] += 1
                else:
                    errors_dev += 1
            chunks += len(text) // size
        todo += [("dev", d) for to, d in w.take()] + [("x", d) for d in dev.out]
        dev.out = []
        if not todo:
            continue
        to, raw = todo.pop(0)
        if case["slow"]:
            w("advance", ms=case["slow"])
        if to == "x":
            w("deliver", to="x", data=list(raw))
        else:
            expect(isinstance(raw, bytes), lambda: f"invalid MIDI data sent: {raw}")
            try:
                command, p = parse(raw) or (None, b"")
            except ValueError as e:
                expect(False, f"invalid message sent ({e}): {raw.hex()}")
            expect(command in (REQUEST, START, DATA, ACK), lambda: f"message not understood: {raw.hex()}")
            if command == START:
                rec.label("error" if p[4] != FILE else "file")
            dev.receive(raw)
        if not ops and not todo:
            todo += [("dev", d) for to, d in w.take()] + [("x", d) for d in dev.out]
            dev.out = []
    got = Counter((e[2], e[3]) for e in w.events if e[1] == "file")
    expect(got == want_web, lambda: f"received by the application, but not sent: {list(got - want_web)[:2]}; sent, but not received: {list(want_web - got)[:2]}")
    got = Counter(dev.stored)
    expect(got == want_dev, lambda: f"received by the controller, but not sent: {list(got - want_dev)[:2]}; sent, but not received: {list(want_dev - got)[:2]}")
    shown = [e for e in w.events if e[1] == "error"]
    expect(len(shown) == errors_web, lambda: f"{len(shown)} errors shown: {shown}, {errors_web} expected")
    expect(len(dev.errors) == errors_dev, lambda: f"errors sent to the controller: {dev.errors}, {errors_dev} expected")
    expect(not [e for e in w.events if e[1] == "exception"], lambda: f"exceptions: {w.events}")
    rec.nontrivial_if(chunks >= 3)


def run_ports(case, rec):
    w = web()
    names = [f"P{i}" for i in range(len(case["ports"]))]
    w("reset", ports=names, seed=None)
    devs = {n: Device({"x": "y"}) for n, there in zip(names, case["ports"]) if there}
    other = {n: [foreign(f) for f in case["foreign"]] for n in names}

    def exchange():
        """All devices answer; noise at all ports"""
        for _ in range(200):
            sent = w.take()
            if not sent and not any(d.out for d in devs.values()):
                return
            for to, raw in sent:
                if to in devs:
                    devs[to].receive(raw)
            for n, d in devs.items():
                out, d.out = d.out, []
                for raw in out:
                    w("deliver", to=n, data=list(raw))
            for n in names:
                if other[n]:
                    w("deliver", to=n, data=list(other[n].pop()))

    if case["scan"]:
        w("start", id="s", what="scan", args=[])
        exchange()
        w("advance", ms=case["wait"])
        exchange()
        res = w.results.get("s")
        if devs:
            expect(res is not None and res[0] == "ok" and res[1] in devs, lambda: f"scanning found {res}, controllers at {sorted(devs)}")
        elif case["wait"] < 2000:
            expect(res is None, lambda: f"scanning ended after {case['wait']} ms: {res}")
        else:
            expect(res == ["failed", "nothing found"], lambda: f"scanning with no controllers: {res}")
    else:
        n = names[case["port"] % len(names)]
        w("start", id="s", what="connect", args=[n])
        exchange()
        w("advance", ms=case["wait"])
        exchange()
        res = w.results.get("s")
        if n in devs:
            expect(res is not None and res[0] == "ok", lambda: f"connecting to the controller at {n}: {res}")
            w("start", id="l", what="load", args=["x"])
            exchange()
            expect(w.results.get("l") == ["ok", "y"], lambda: f"loading from the controller at {n}: {w.results.get('l')}")
        elif case["wait"] < 3000:
            expect(res is None, lambda: f"connecting to {n} without a controller: {res} after {case['wait']} ms")
        else:
            expect(res is not None and res[0] == "failed", lambda: f"connecting to {n} without a controller: {res} after {case['wait']} ms")
    rec.nontrivial_if(len(names) > 1)


piece = st.one_of(
    st.text(st.characters(codec="utf-8"), max_size=12),
    st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=90),
    st.sampled_from(["\n", "\r\n", "\ufeff", "\u00e4\u00f6\u00fc\u00df", "\u0440\u0443\u0441\u0441\u043a\u0438\u0439 " * 9, "\U0001f3b8", "\U0001f3b8" * 20, "\x00", "x" * 64, "y" * 129, "\u20ac" * 30]),
)
text = st.lists(piece, min_size=1, max_size=12).map("".join).filter(bool)
tid = st.one_of(st.integers(0, (1 << 24) - 1), st.sampled_from([0, (1 << 24) - 1, (1 << 24) - 2, 127, 128]))
paths = st.sampled_from(["/inputs.py", "/display.py", "inputs.py", "a", "/gr\u00fc\u00dfe/\U0001f3b8.py"])
noise = st.tuples(st.integers(0, 5), st.lists(st.integers(0, 127), max_size=12))


@st.composite
def transfers(draw):
    def fault():
        kind = draw(st.sampled_from(["foreign", "foreign", "foreign", "twice", "lose", "damage", "other port"]))
        if kind == "damage":
            return [kind, draw(st.tuples(st.integers(0, 3), st.integers(0, 200), st.integers(0, 126), st.integers(0, 127)))]
        return [kind, draw(noise)] if kind == "foreign" else [kind]
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        harmless = draw(st.booleans())
        faults = [] if draw(st.integers(0, 2)) == 0 else [[draw(st.one_of(st.integers(0, 9), st.integers(0, 40))), fault()] for _ in range(draw(st.integers(1, 5)))]
        if harmless:
            faults = [f for f in faults if f[1][0] in ("foreign", "other port")]
        op = {"op": draw(st.sampled_from(["load", "save"])), "path": draw(paths), "faults": faults, "pause": draw(st.sampled_from([0, 100, 6000]))}
        if op["op"] == "save":
            op["text"] = draw(text)
        ops.append(op)
    return {"files": {p: draw(text) for p in draw(st.lists(paths, max_size=4, unique=True))}, "first": draw(tid), "seed": draw(tid), "ops": ops}


@st.composite
def several(draw):
    files = {p: draw(st.one_of(text, text, text, st.just(""))) for p in draw(st.lists(paths, max_size=3, unique=True))}
    dfiles = {p: draw(text) for p in draw(st.lists(paths, max_size=3, unique=True))}
    ops = [{"op": draw(st.sampled_from(["send", "send", "request", "device sends", "device requests"])), "path": draw(paths), "text": draw(text), "size": draw(st.one_of(st.integers(1, 20), st.integers(1, 300), st.sampled_from([65, 100]))),
            "at": draw(st.integers(0, 20))} for _ in range(draw(st.integers(1, 4)))]
    return {"files": dfiles, "webfiles": files, "first": draw(tid), "seed": draw(st.one_of(st.none(), tid, tid)), "random": draw(st.sampled_from([0.0, 0.5, 0.99999999999, 0.999999940395])),
            # Transfers are given up after 5 s of silence, there may be some messages of others in between
            "slow": draw(st.sampled_from([0, 0, 20, 60, 150])), "ops": ops}


def ports():
    return st.fixed_dictionaries({"ports": st.lists(st.booleans(), min_size=1, max_size=4), "scan": st.booleans(), "port": st.integers(0, 3), "wait": st.sampled_from([0, 1999, 2001, 2999, 3001, 10000]),
                                  "foreign": st.lists(noise, max_size=4)})


TESTS = [Test("transfer", transfers, run_transfer, quick=1500, thorough=15000), Test("bridges", several, run_bridges, quick=1500, thorough=15000), Test("ports", ports, run_ports, quick=400, thorough=4000)]
