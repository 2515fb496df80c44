from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build, sense, KEMPER
from .. import fakes, gens
from ..app import App, expect, label, root, splash_callback

ID = "C06"
RULE = ("Random time leases and flags; histories of updates and messages (sense messages, near misses, arbitrary ones, connection gaps) at random times around all periods, compared with a reference model of the "
        "session; and a complete controller with the state display against a device that appears and disappears. Non-trivial: the connection was established, and lost or kept alive.")
NOTE = "One millisecond around each period is left open (both outcomes accepted)."

GREEN = (0, 255, 0)
RED = (255, 0, 0)


def near_miss():
    base = st.tuples(st.just("sx"), st.just(list(KEMPER)), st.lists(gens.b7, min_size=5, max_size=5))
    def mut(draw_i, v):
        d = [0, 0, 0x7e, 0, 0x7f]
        d[draw_i] = v
        return ["sx", list(KEMPER), d]
    # one of the identifying bytes differs
    one = st.builds(mut, st.sampled_from([2, 3, 4]), gens.b7).filter(lambda r: r[2][2:5] != [0x7e, 0, 0x7f])
    manu = st.just(["sx", [0, 0x20, 0x29], [0, 0, 0x7e, 0, 0x7f]])
    short = st.builds(lambda n: ["sx", list(KEMPER), [0, 0, 0x7e, 0][:n]], st.integers(0, 4))
    return st.one_of(one, manu, short, st.just(["cc", 31, 1]), gens.any_message.map(lambda r: [list(x) if isinstance(x, tuple) else x for x in r]),
                     st.just(["sx", list(KEMPER), [0, 0, 1, 0, 0x32, 3, 0, 1]]))


def cases():
    @st.composite
    def f(draw):
        lease = draw(st.sampled_from([2, 4, 10, 20, 30, 60]))
        ops = []
        for _ in range(draw(st.integers(3, 40))):
            k = draw(st.integers(0, 11))
            if k <= 5:
                ops.append(["update", draw(st.one_of(st.integers(1, 300), st.sampled_from([1500, 1502, 5000, 5002, lease * 500, lease * 500 + 2, 750])))])
            elif k <= 9:
                ops.append(["sense", draw(st.integers(0, 900)), draw(st.sampled_from([0, 2])), draw(st.sampled_from([0, 0x7f]))])
            elif k == 10:
                ops.append(["other", draw(near_miss())])
            else:
                ops.append(["alive", draw(st.integers(2, 30)), draw(st.sampled_from([300, 500, 1000]))])
        return {"lease": lease, "tuner": draw(st.booleans()), "ops": ops}
    return f()


def run(case, rec):
    with World() as w:
        port = fakes.Port()
        P = w.get("clients.kemper", "KemperBidirectionalProtocol")
        p = P(time_lease_seconds=case["lease"], tuner_mode=case["tuner"])
        c = w.get("controller.client", "BidirectionalClient")(port, {}, p)
        flags = 2 + (0x20 if case["tuner"] else 0)

        def beacon(init):
            return ("sx", KEMPER, (2, 0x7f, 0x7e, 0, 0x40, 2, flags + (1 if init else 0), case["lease"] // 2))

        st_ = {"on": False, "init": None, "sense": None, "res": None, "sent": False}
        stats = {"connected": 0, "lost": 0, "alive": 0, "beacons": 0}
        keep = case["lease"] * 500

        def check():
            col = tuple(p.get_color())
            exp = GREEN if st_["on"] else RED
            expect(col == exp, f"colour {col} while {'connected' if st_['on'] else 'offline'}")

        def update():
            now = w.clock.ms
            port.take()
            c.update()
            got = port.take()
            if not st_["on"]:
                age = None if st_["init"] is None else now - st_["init"]
                must = age is None or age > 5001
                may = must or age >= 5000
                if got:
                    expect(may, f"initialization sent again after {age} ms")
                    expect(got == [beacon(True)], f"offline: sent {got}, expected {beacon(True)}")
                    st_["init"] = now
                    st_["sent"] = True
                    stats["beacons"] += 1
                else:
                    expect(not must, f"no initialization sent ({age} ms since the last one)")
            else:
                age = now - st_["sense"]
                lost = age > 1501
                if abs(age - 1500) <= 1:
                    lost = tuple(p.get_color()) != GREEN
                if lost:
                    st_["on"] = False
                    stats["lost"] += 1
                    expect(got == [] or (got == [beacon(True)] and now - st_["init"] >= 5000), f"connection lost: sent {got}")
                    if got:
                        st_["init"] = now
                else:
                    ka = now - st_["res"]
                    if got:
                        expect(ka >= keep, f"keep alive sent {ka} ms after the last one, half the lease is {keep} ms")
                        expect(got == [beacon(False)], f"connected: sent {got}, expected {beacon(False)}")
                        st_["res"] = now
                        stats["alive"] += 1
                    else:
                        expect(ka <= keep + 1, f"no keep alive for {ka} ms, half the lease is {keep} ms")
            check()

        def receive(r, is_sense):
            port.take()
            c.receive(build(r))
            expect(port.take() == [], f"message {r} made the protocol send something")
            if is_sense and st_["sent"]:
                if not st_["on"]:
                    stats["connected"] += 1
                    st_["res"] = w.clock.ms
                    st_["on"] = True
                st_["sense"] = w.clock.ms
            check()

        check()
        for op in case["ops"]:
            if op[0] == "update":
                w.clock.advance(op[1])
                update()
            elif op[0] == "sense":
                w.clock.advance(op[1])
                receive(("sx", KEMPER, (op[2], op[3], 0x7e, 0, 0x7f)), True)
            elif op[0] == "other":
                r = op[1]
                if r[0] == "sx" and r[1] == list(KEMPER) and r[2][2:5] == [0x7e, 0, 0x7f]:
                    continue
                receive(r, False)
            else:
                for _ in range(op[1]):
                    w.clock.advance(op[2] // 2)
                    update()
                    w.clock.advance(op[2] // 2)
                    receive(sense(), True)
        rec.nontrivial_if(stats["connected"] and (stats["lost"] or stats["alive"]))
        for k, v in stats.items():
            rec.label(k, v)


def app_cases():
    return st.fixed_dictionaries({
        "lease": st.sampled_from([2, 10, 30]),
        "phases": st.lists(st.tuples(st.booleans(), st.integers(200, 9000)), min_size=1, max_size=6),
        "tick": st.sampled_from([10, 50, 170]),
        "config": st.sampled_from([{}, {"updateInterval": 100}, {"updateInterval": 400}]),
    })


def run_app(case, rec):
    with World() as w:
        E = w.get("ui.elements", "BidirectionalProtocolState")
        B = w.get("ui.ui", "DisplayBounds")
        dot = E(bounds=B(10, 10, 20, 20))
        p = w.get("clients.kemper", "KemperBidirectionalProtocol")(time_lease_seconds=case["lease"])
        app = App(w, [], config=case["config"], protocol=p, splash=splash_callback(w, root(w, [dot])), tick_ms=case["tick"])
        app.init()
        upd = case["config"].get("updateInterval", 200)
        slack = 2 * case["tick"] + upd + 5
        beacons = []
        app.port.on_send = lambda r: beacons.append((w.clock.ms, r))
        last_sense = None
        connected_at = None
        lost_at = w.clock.ms
        flips = 0
        from ..app import flat
        from .. import fakes as fk

        def shown():
            rects = [it for it, x, y in flat(app.display.tft.current) if isinstance(it, fk.Rect)]
            return tuple(rects[-1].fill) if rects and rects[-1].fill is not None else None

        for alive, dur in case["phases"]:
            end = w.clock.ms + dur
            nxt = w.clock.ms
            start = w.clock.ms
            while w.clock.ms < end:
                if alive and w.clock.ms >= nxt:
                    app.port.push(sense())
                    nxt += 500
                    if beacons:
                        if connected_at is None or w.clock.ms - last_sense > 1400:
                            connected_at = w.clock.ms
                        last_sense = w.clock.ms
                app.tick()
                now = w.clock.ms
                on_sure = connected_at is not None and last_sense is not None and now - last_sense <= 1400 and now - connected_at > slack
                off_sure = connected_at is None or now - last_sense > 1500 + 2 * slack
                if on_sure:
                    expect(shown() == GREEN, f"state display shows {shown()} while the device sends its sense messages")
                if off_sure and now - start > 2 * slack and not alive or (connected_at is None and now - 1_000_000 > 2 * slack):
                    expect(shown() == RED, f"state display shows {shown()} while there is no connection")
                if connected_at is not None and now - last_sense > 1500 + slack:
                    connected_at = None
                    lost_at = now
                    flips += 1
                if connected_at is None:
                    prev = [t for t, r in beacons if r[0] == "sx" and r[2][6] & 1]
                    due = max(lost_at, prev[-1] + 5000 if prev else 0)
                    expect(now - due <= 3 * slack, f"no initialization sent while offline: due {now - due} ms ago")
        inits = [t for t, r in beacons if r[2][6] & 1]
        for a, b in zip(inits, inits[1:]):
            expect(b - a >= 5000, f"initializations {b - a} ms apart")
        rec.nontrivial_if(last_sense is not None and (flips or len(beacons) > 1))


TESTS = [Test("session", cases, run, quick=1800, thorough=60000),
         Test("controller", app_cases, run_app, quick=120, thorough=4000)]
