from hypothesis import strategies as st
from ..kit import Test, Violation
from ..world import World, dump, build
from .. import fakes, gens
from ..app import expect

ID = "C01"
RULE = ("Random routing tables over up to 4 ports and the application (each routing at most once, in random order) and random "
        "histories of arriving messages of all types (valid, unknown status, no status), polls and messages sent by the application. "
        "Non-trivial: at least two routings share a source or a target and at least two messages arrive.")
NOTE = ("Random routing tables and histories against a delivery model; the order between different sources and the exact poll at which a message "
        "is delivered are left open, only per-source order, exactly-once and eventual delivery are judged.")
APP = "app"


def cases():
    ends = st.sampled_from([0, 1, 2, 3, APP])
    routing = st.tuples(ends, ends).filter(lambda r: r[0] != r[1])
    msg = st.one_of(gens.cc, gens.pc, gens.sx(6), gens.raw, gens.unknown, st.just(("nostatus",)))
    op = st.one_of(
        st.tuples(st.just("in"), st.integers(0, 3), msg),
        st.tuples(st.just("in"), st.integers(0, 3), msg),
        st.tuples(st.just("poll"), st.integers(1, 3)),
        st.tuples(st.just("send"), st.one_of(gens.cc, gens.pc, gens.sx(6))),
    )
    return st.fixed_dictionaries({
        "routings": st.lists(routing, min_size=0, max_size=7, unique=True),
        "ops": st.lists(op, min_size=1, max_size=24),
    })


class NoStatus:
    """A message object without a valid status (what a broken transmission yields)"""
    _STATUS = None


def tag(rec, i):
    return rec


def run(case, rec):
    with World() as w:
        MidiRouting = w.get("controller.midi", "MidiRouting")
        MidiController = w.get("controller.midi", "MidiController")
        # The real MIDI devices refuse to send messages of unknown type; these ports record them
        ports = [fakes.Port(f"p{i}") for i in range(4)]
        for p in ports:
            p.on_send = lambda r: None
        ep = lambda e: MidiRouting.APPLICATION if e == APP else ports[e]
        midi = MidiController(routings=[MidiRouting(source=ep(s), target=ep(t)) for s, t in case["routings"]])
        routings = [tuple(r) for r in case["routings"]]
        sent_app = []
        arrived = {i: [] for i in range(4)}
        got = []

        def poll():
            before = [len(p.received) for p in ports]
            m = midi.receive()
            if m is not None:
                got.append(("nostatus",) if isinstance(m, NoStatus) else dump(m))
            return m

        for op in case["ops"]:
            if op[0] == "in":
                r = tuple(tuple(x) if isinstance(x, list) else x for x in op[2])
                # recorded in the form the dump of the built message has
                if r[0] == "nostatus":
                    ports[op[1]].push(NoStatus())
                    arrived[op[1]].append(("nostatus",))
                else:
                    m = build(r)
                    arrived[op[1]].append(dump(m))
                    ports[op[1]].push(r)
            elif op[0] == "poll":
                for _ in range(op[1]):
                    poll()
            else:
                m = build(op[1])
                sent_app.append(dump(m))
                marks = [len(p.sent) for p in ports]
                midi.send(m)
                for i, p in enumerate(ports):
                    n = routings.count((APP, i))
                    expect(p.sent[marks[i]:] == [dump(m)] * n,
                           f"application message {dump(m)} reached port {i} as {p.sent[marks[i]:]}, expected {n} time(s)")
        # let everything through
        total = sum(len(v) for v in arrived.values())
        for _ in range(total + 8):
            poll()

        forwardable = lambda r: r[0] not in ("unknown", "nostatus", "bad")
        # 1. every port: what came out
        for t in range(4):
            out = list(ports[t].sent)
            for m in sent_app * routings.count((APP, t)):
                if m in out:
                    pass
            expected = []
            for s in range(4):
                if (s, t) in routings:
                    expected += [m for m in arrived[s] if forwardable(m)]
            expected += sent_app if (APP, t) in routings else []
            expect(sorted(map(repr, out)) == sorted(map(repr, expected)),
                   f"port {t} got {out}, expected (in any order) {expected}")
            for s in range(4):
                if (s, t) in routings and [x for x in routings if x[1] == t] == [(s, t)]:
                    exp = [m for m in arrived[s] if forwardable(m)]
                    expect(out == exp, f"port {t} got {out}, expected order {exp}")
        # 2. the application
        srcs = [s for s in range(4) if (s, APP) in routings]
        expected = [m for s in srcs for m in arrived[s]]
        expect(sorted(map(repr, got)) == sorted(map(repr, expected)), f"application got {got}, expected (in any order) {expected}")
        for s in srcs:
            # order per source: as a subsequence, restricted to messages only this source delivered
            others = [m for o in srcs if o != s for m in arrived[o]]
            mine = [m for m in arrived[s] if m not in others]
            expect([m for m in got if m in mine] == mine, f"application got {got}, order of source {s} was {mine}")
        # 3. unrouted sources are not consumed for somebody else
        shared = len(set(s for s, _ in routings)) < len(routings) or len(set(t for _, t in routings)) < len(routings)
        rec.nontrivial_if(shared and total >= 2)
        for s in range(4):
            if (s, APP) in routings and any((s, t) in routings for t in range(4)):
                rec.label("through-and-app")
                if arrived[s]:
                    rec.label("through-and-app-with-messages")
        if any(m[0] in ("unknown", "nostatus") for v in arrived.values() for m in v):
            rec.label("unknown-messages")


def device_cases():
    msg = st.one_of(gens.cc, gens.pc, gens.sx(20), gens.raw)
    return st.fixed_dictionaries({
        "msgs": st.lists(msg, min_size=1, max_size=16),
        "cuts": st.lists(st.booleans(), min_size=1, max_size=8),
        "din_to_usb": st.booleans(),
        "channel": st.integers(0, 15),
    })


def raw_bytes(r, channel):
    m = build(r)
    m.channel = channel
    return bytes(m.__bytes__()), dump(m)


def run_device(case, rec):
    """The shipped MIDI devices (USB and DIN) on byte level: everything that comes in arrives at the
    application and goes through to the other port, byte by byte, however it is cut into pieces."""
    with World() as w:
        dev = w.imp("hardware.devices.pa_midicaptain")
        MidiRouting = w.get("controller.midi", "MidiRouting")
        MidiController = w.get("controller.midi", "MidiController")
        usb = dev.PA_MIDICAPTAIN_USB_MIDI(in_channel=None, out_channel=case["channel"])
        din = dev.PA_MIDICAPTAIN_DIN_MIDI(in_channel=None, out_channel=case["channel"])
        src, dst = (din, usb) if case["din_to_usb"] else (usb, din)
        uart = w.hw.uarts[0]
        inp = uart.inp if case["din_to_usb"] else w.hw.usb_in
        out = w.hw.usb_out if case["din_to_usb"] else uart.out
        back = uart.out if case["din_to_usb"] else w.hw.usb_out
        midi = MidiController(routings=[MidiRouting(source=src, target=MidiRouting.APPLICATION), MidiRouting(source=MidiRouting.APPLICATION, target=dst)])
        expected = []
        data = b""
        for m in case["msgs"]:
            if m[0] == "raw" and m[1] == 0xfe:
                continue   # active sensing
            d, r = raw_bytes(m, case["channel"])
            data += d
            expected.append((d, r))
        got = []

        def drain():
            for _ in range(400):
                m = midi.receive()
                if m is None:
                    break
                got.append(dump(m))
                midi.send(m)

        # The MIDI library itself does not re-assemble system exclusive messages that are cut by its
        # buffer limit, so pieces end at message boundaries and stay below the buffer size.
        burst = b""
        for i, (d, _) in enumerate(expected):
            if burst and (len(burst) + len(d) > 95 or case["cuts"][i % len(case["cuts"])]):
                inp.feed(burst)
                drain()
                burst = b""
            burst += d
        inp.feed(burst)
        drain()
        drain()
        expect(got == [r for _, r in expected], f"device delivered {got}, expected {[r for _, r in expected]}")
        expect(bytes(out.data) == data, f"bytes sent {bytes(out.data).hex()} differ from {data.hex()}")
        expect(not back.data, "bytes were sent back to the source port")
        if case["din_to_usb"]:
            expect(uart.baudrate == 31250, "DIN MIDI must run at 31250 baud")
        rec.nontrivial_if(len(expected) >= 3)


TESTS = [
    Test("routing", cases, run, quick=1800, thorough=60000),
    Test("devices", device_cases, run_device, quick=500, thorough=15000),
]
