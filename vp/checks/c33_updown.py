from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build, nrpn_request, nrpn_value, KEMPER
from ..app import App, expect, label, root, splash_callback, text_source
from ..kemperdev import Device
from .. import gens

ID = "C33"
RULE = ("Up to four up/down switches with random offsets, limits and repeat times on one or two parameters (requested by address, or controllers confirmed by the device); histories of taps, holds of random length, and changes at the device with random update intervals; "
        "each press has to send the reported value plus the offset within the limits, holding has to continue in steps of the offset with the number of steps the repeat time allows, and nothing may be sent otherwise; LEDs and labels are compared with the value. "
        "Non-trivial: a hold was repeated at least twice.")
NOTE = "Steps are counted with one update interval of tolerance, which the documentation mentions as lower bound for the repeat time."


def cases():
    @st.composite
    def f(draw):
        params = [{"kind": draw(st.sampled_from(["nrpn", "nrpn", "cc"])), "max": None, "start": 0} for _ in range(draw(st.integers(1, 2)))]
        for p in params:
            top = 16383 if p["kind"] == "nrpn" else 127
            p["start"] = draw(st.one_of(st.none() if p["kind"] == "cc" else st.nothing(), st.integers(0, top), st.sampled_from([0, top])))
        sw = []
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.integers(0, len(params) - 1))
            top = 16383 if params[k]["kind"] == "nrpn" else 127
            mx = draw(gens.rarely(st.integers(1, top), None, 3))
            lim = mx or top
            sw.append({"param": k, "offset": draw(st.one_of(st.integers(-lim, lim), st.integers(1, max(1, lim // 10)), st.integers(-max(1, lim // 10), -1))), "max": mx, "repeat": draw(st.sampled_from([200, 200, 500, 1000, None, 0])),
                       "label": draw(st.booleans()), "change": draw(gens.rarely(st.just(True), False, 2)), "text": draw(st.sampled_from(["{val}%", "Vol {val}", "x"])), "color": draw(gens.color), "b": draw(st.sampled_from([0.125, 0.5, 1])),
                       "pixels": draw(st.integers(0, 2))})
        ops = []
        for _ in range(draw(st.integers(1, 8))):
            k = draw(st.integers(0, 7))
            if k <= 2:
                ops.append(["tap", draw(st.integers(0, len(sw) - 1)), draw(st.integers(1, 9)) * 10])
            elif k <= 4:
                ops.append(["hold", draw(st.integers(0, len(sw) - 1)), draw(st.integers(20, 350)) * 10])
            elif k == 5:
                p = draw(st.integers(0, len(params) - 1))
                ops.append(["device", p, draw(st.integers(0, 16383 if params[p]["kind"] == "nrpn" else 127))])
            elif k == 6:
                ops.append(["double", draw(st.integers(0, len(sw) - 1)), draw(st.integers(0, len(sw) - 1))])
            else:
                ops.append(["wait", draw(st.integers(1, 200)) * 10])
        return {"params": params, "switches": sw, "ops": ops, "interval": draw(gens.rarely(st.sampled_from([100, 300]), 200, 3))}
    return f()


def run(case, rec):
    with World() as w:
        UPDOWN = w.get("clients.local.actions.param_change", "PARAMETER_UP_DOWN")
        M = w.get("controller.client", "ClientParameterMapping")
        maps = []
        for k, p in enumerate(case["params"]):
            if p["kind"] == "nrpn":
                maps.append(M.get(name="P%d" % k, set=build(("sx", KEMPER, (2, 0x7f, 1, 0, 4, 1 + k))), request=build(nrpn_request(4, 1 + k)), response=build(("sx", KEMPER, (0, 0, 1, 0, 4, 1 + k)))))
            else:
                maps.append(M.get(name="P%d" % k, set=build(("cc", 100 + k, 0)), response=build(("cc", 100 + k, 0))))
        labels, inputs, px = [], [], 0

        def lab(**kw):
            labels.append(label(w, y=18 * len(labels), h=18, back=(9, 9, 9), **kw))
            return labels[-1]

        shown = []
        for s in case["switches"]:
            d = lab() if s["label"] else None
            c = lab(text="idle", callback=text_source(w, lambda: "idle")) if s["change"] else None
            shown.append((d, c))
            kw = {} if s["max"] is None else {"max_value": s["max"]}
            inputs.append({"actions": [UPDOWN(maps[s["param"]], s["offset"], repeat_interval_millis=s["repeat"], display=d, change_display=c, text=s["text"], color=tuple(s["color"]), led_brightness=s["b"], **kw)],
                           "pixels": list(range(px, px + s["pixels"]))})
            px += s["pixels"]
        interval = case["interval"]
        app = App(w, inputs, config={"updateInterval": interval}, splash=splash_callback(w, root(w, labels)))
        dev = Device(app, bidirectional=False, params={(4, 1 + k): p["start"] for k, p in enumerate(case["params"]) if p["kind"] == "nrpn"})
        values = [p["start"] for p in case["params"]]
        base = app.port.on_send

        def on_send(r):
            if r[0] == "cc" and 100 <= r[1] < 100 + len(values):
                values[r[1] - 100] = r[2]
                log.append((r[1] - 100, r[2]))
                app.port.push(r)
            else:
                base(r)
                if r[0] == "sx" and r[2][2] == 1 and len(r[2]) == 8:
                    k = r[2][5] - 1
                    expect(r[2][4] == 4 and 0 <= k < len(values), lambda: f"unexpected message {r}")
                    values[k] = r[2][6] * 128 + r[2][7]
                    log.append((k, values[k]))

        log = []
        app.port.on_send = on_send
        app.init()
        for k, p in enumerate(case["params"]):
            if p["kind"] == "cc" and p["start"] is not None:
                app.feed(("cc", 100 + k, p["start"]))

        def settle():
            app.run(2 * interval + 60)

        def top(s):
            return s["max"] or (16383 if case["params"][s["param"]]["kind"] == "nrpn" else 127)

        def step(s, v):
            return min(max(v + s["offset"], 0), top(s))

        def check(op):
            leds = app.leds()
            for n, (s, (d, c)) in enumerate(zip(case["switches"], shown)):
                v = values[s["param"]]
                share = 0 if v is None else min(v / top(s), 1)
                if s["offset"] < 0:
                    share = 1 - share
                for p in inputs[n]["pixels"]:
                    expect(all(abs(x - y * share * s["b"]) <= 1.01 for x, y in zip(leds[p], s["color"])), lambda: f"LED of switch {n} is {leds[p]} after {op}, expected {s['color']} with {share * s['b']} (value {v} of {top(s)})")
                if d:
                    val = "?" if v is None else None
                    ok = [s["text"].replace("{val}", val)] if val else [s["text"].replace("{val}", str(x)) for x in ({int(v * 100 / top(s) + 0.5), round(v * 100 / top(s))})]
                    expect(d.text in ok, lambda: f"label of switch {n} shows {d.text!r} after {op}, expected {ok} (value {v} of {top(s)})")
                    expect(all(abs(x - y * share) <= 1.01 for x, y in zip(d.back_color, s["color"])), lambda: f"label of switch {n} has colour {d.back_color} after {op}, expected {s['color']} with {share}")

        settle()
        check("start")
        repeated = 0
        for op in case["ops"]:
            log.clear()
            if op[0] in ("tap", "hold"):
                s = case["switches"][op[1]]
                v = values[s["param"]]
                app.models[op[1]].pushed = True
                app.tick()
                expect(log == ([] if v is None else [(s["param"], step(s, v))]), lambda: f"pressing switch {op[1]} ({s}) at {v} sent {log}")
                first = app.w.clock.ms
                times = []
                n = len(log)
                while app.w.clock.ms < first + op[2]:
                    app.tick()
                    if len(log) > n:
                        times.append(app.w.clock.ms)
                        expect(len(log) == n + 1, lambda: f"holding switch {op[1]} sent {log[n:]} at once")
                        n = len(log)
                app.models[op[1]].pushed = False
                app.tick()
                expect(len(log) == n, lambda: f"releasing switch {op[1]} sent {log[n:]}")
                for a, b in zip(log, log[1:]):
                    expect(b == (s["param"], step(s, a[1])), lambda: f"holding switch {op[1]} ({s}) sent {log}, {b} does not follow on {a}")
                if v is not None and s["repeat"]:
                    most = op[2] // s["repeat"]
                    least = op[2] // (s["repeat"] + interval + 30)
                    expect(least <= len(times) <= most, lambda: f"holding switch {op[1]} ({s}) for {op[2]} ms repeated {len(times)} times, expected {least} to {most}")
                    for a, b in zip([first] + times, times):
                        expect(b - a >= s["repeat"] - 1, lambda: f"repeated after {b - a} ms, repeat time is {s['repeat']}")
                    repeated += len(times) > 1
                else:
                    expect(not times, lambda: f"holding switch {op[1]} ({s}) repeated at {times}")
                c = shown[op[1]][1]
                if c and v is not None and app.w.clock.ms - ([first] + times)[-1] < 1400:
                    a, b = values[s["param"]], top(s)
                    ok = ["P%d: %d%%" % (s["param"], x) for x in {int(a * 100 / b + 0.5), round(a * 100 / b)}]
                    expect(c.text in ok, lambda: f"temporary display of switch {op[1]} shows {c.text!r} after {op}, expected {ok}")
                n = len(log)
                app.run(1500)
                expect(len(log) == n, lambda: f"{log[n:]} sent after switch {op[1]} has been released")
            elif op[0] == "double":
                a, b = case["switches"][op[1]], case["switches"][op[2]]
                if a["param"] != b["param"] or values[a["param"]] is None :
                    continue
                v = values[a["param"]]
                app.tap(op[1])
                app.run(40)
                app.tap(op[2])
                expect(log == [(a["param"], step(a, v)), (a["param"], step(b, step(a, v)))], lambda: f"{op} at {v} sent {log}")
            elif op[0] == "device":
                values[op[1]] = op[2]
                if case["params"][op[1]]["kind"] == "nrpn":
                    dev.params[(4, 1 + op[1])] = op[2]
                else:
                    app.feed(("cc", 100 + op[1], op[2]))
                settle()
                expect(not log, lambda: f"{op} sent {log}")
            else:
                app.run(op[1])
                expect(not log, lambda: f"{op} sent {log}")
            settle()
            check(op)
        rec.nontrivial_if(repeated)
        rec.label("holds with repeat", repeated)


TESTS = [Test("updown", cases, run, quick=900, thorough=15000)]
