from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build
from .. import fakes, gens
from ..app import expect

ID = "C08"
RULE = ("Random update intervals, message limits, inputs and components; histories of passes with random time steps and message bursts (up to several times the limit), also arriving "
        "while others are processed. Every read of an input, every message taken and every update is journaled and checked. Non-trivial: a burst exceeded the limit or an update happened.")
NOTE = "Phases are delimited by the journaled update calls and the ends of the passes."


def cases():
    return st.fixed_dictionaries({
        "interval": st.one_of(st.sampled_from([200, 0, 1, 50]), st.integers(0, 1000), st.none()),
        "limit": st.one_of(st.none(), st.integers(0, 20)),
        "clear": st.one_of(st.none(), st.booleans()),
        "before": st.integers(0, 30),
        "kinds": st.lists(st.sampled_from(["switch", "pot", "encoder"]), max_size=4),
        "comps": st.integers(0, 4),
        "feed_on_update": st.booleans(),
        "ops": st.lists(st.tuples(st.one_of(st.integers(0, 40), st.sampled_from([199, 200, 201, 500])), st.integers(0, 45)), min_size=1, max_size=12),
    })


def run(case, rec):
    with World() as w:
        journal = []

        class Watched:
            def __init__(self, name, kind):
                self.__dict__["n"] = name
                self.kind = kind

            def init(self):
                pass

        def mk(kind, name):
            attr = {"switch": "pushed", "pot": "value", "encoder": "position"}[kind]
            val = {"switch": False, "pot": 0, "encoder": 0}[kind]

            def get(self):
                journal.append(("poll", name))
                return val
            return type("W" + kind, (Watched,), {attr: property(get)})(name, kind)

        class P(fakes.Port):
            def receive(self):
                had = bool(self.inbox)
                if not had:
                    journal.append(("empty",))
                    self.reads += 1
                    return None
                return super().receive()

        port = P("p", journal=journal)
        MidiRouting = w.get("controller.midi", "MidiRouting")
        midi = w.get("controller.midi", "MidiController")(routings=[
            MidiRouting(source=port, target=MidiRouting.APPLICATION), MidiRouting(source=MidiRouting.APPLICATION, target=port)])
        cfg = {}
        interval = 200 if case["interval"] is None else case["interval"]
        limit = 10 if case["limit"] is None else case["limit"]
        clear = True if case["clear"] is None else case["clear"]
        if case["interval"] is not None:
            cfg["updateInterval"] = interval
        if case["limit"] is not None:
            cfg["maxConsecutiveMidiMessages"] = limit
        if case["clear"] is not None:
            cfg["clearBuffers"] = clear
        defs = [{"assignment": {"model": mk(k, i)}} for i, k in enumerate(case["kinds"])]
        c = w.get("controller.controller", "Controller")(led_driver=fakes.LedDriver(), midi=midi, config=cfg, inputs=defs)
        Updateable = w.get("misc", "Updateable")
        seq = [0]
        handled = []
        fed = []

        class Comp(Updateable):
            def __init__(self, n):
                self.n = n

            def update(self):
                journal.append(("update", self.n))
                if case["feed_on_update"]:
                    feed(1)

        for i in range(case["comps"]):
            c.add_updateable(Comp(i))
            c.add_updateable("not an updateable")

        # one parameter that sees every message of the stream
        M = w.get("controller.client", "ClientParameterMapping")
        m = M.get(name="stream", response=build(("sx", (0, 0x20, 0x33), (0, 0, 1, 0, 5, 5))))

        class L:
            def parameter_changed(self, mapping):
                handled.append(mapping.value)

            def request_terminated(self, mapping):
                pass

        c.client.register(m, L())

        def feed(n):
            for _ in range(n):
                seq[0] += 1
                port.push(("sx", (0, 0x20, 0x33), (0, 0, 1, 0, 5, 5, seq[0] // 128, seq[0] % 128)))
                fed.append(seq[0])

        feed(case["before"])
        c.init()
        if clear:
            expect(not port.inbox, "messages waiting at startup have not been discarded although clearing is enabled")
            expect(not handled, "discarded messages have been handled")
            fed.clear()
        else:
            expect(len(port.inbox) == case["before"], "messages waiting at startup have been taken although clearing is disabled")

        n_inputs = len(case["kinds"])
        last_update = None
        burst = updates = 0
        ticks = [(ms, n) for ms, n in case["ops"]] + [(1, 0)] * 2
        for ms, n in ticks:
            w.clock.advance(ms)
            feed(n)
            journal.clear()
            r = c.tick()
            expect(r, "the main loop asks to be ended")
            polled = set()
            taken = 0
            upd = []
            polled_any = set()
            for e in journal:
                if e[0] == "poll":
                    polled.add(e[1])
                    polled_any.add(e[1])
                elif e[0] in ("rx", "empty"):
                    expect(len(polled) == n_inputs, f"MIDI read without polling all inputs before: {journal}")
                    polled = set()
                    if e[0] == "rx":
                        taken += 1
                        expect(taken <= limit + 1, f"{taken} messages taken in a row, the limit is {limit}")
                elif e[0] == "update":
                    upd.append(e[1])
                    taken = 0
            expect(len(polled_any) == n_inputs, "an input has not been polled in a pass")
            burst += n > limit + 1
            if upd:
                updates += 1
                expect(upd == list(range(case["comps"])), f"components updated in one pass: {upd} of {case['comps']}")
                if last_update is not None:
                    expect(w.clock.ms - last_update >= interval, f"updates after {w.clock.ms - last_update} ms, the interval is {interval}")
                last_update = w.clock.ms
            elif case["comps"]:
                expect(last_update is not None and w.clock.ms - last_update <= interval + 1, f"no update for {w.clock.ms - (last_update or 0)} ms, the interval is {interval}")
        for _ in range(60 + len(fed)):
            if not port.inbox:
                break
            w.clock.advance(1)
            c.tick()
        expect(handled == fed, f"handled messages {handled}, arrived {fed}")
        rec.nontrivial_if(burst or updates > 1)
        rec.label("bursts", burst)
        rec.label("updates", updates)


TESTS = [Test("loop", cases, run, quick=900, thorough=30000)]
