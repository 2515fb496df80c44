from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build
from ..app import App, expect, label, root, splash_callback, text_source
from .. import gens, mapspec

ID = "C18"
RULE = ("One or two encoders with accept button and optionally cancel button, preview label and reset parameter (unsolicited or requested); histories of turns, accepts, cancels, device side changes of the value and of the reset parameter. All messages and the preview text are compared with a reference. "
        "Non-trivial: at least one value was accepted and one preselection was changed more than once or discarded.")
NOTE = "The reset parameter only has an effect together with a preview label (like in the code's documentation)."


def cases():
    @st.composite
    def f(draw):
        encs = []
        for i in range(draw(gens.rarely(st.just(2), 1, 3))):
            spec = draw(st.sampled_from([{"kind": "cc", "c": 10 + i}, {"kind": "nrpn", "manu": 0, "func": 1, "page": 4, "num": i}]))
            top = mapspec.max_value(spec)
            hi = draw(st.one_of(st.none(), st.integers(1, top)))
            encs.append({
                "spec": spec, "max": hi, "min": draw(gens.rarely(st.integers(0, top if hi is None else hi), 0, 3)),
                "step": draw(st.one_of(st.none(), st.sampled_from([1, 2, 0.5, 10]))),
                "request": draw(st.booleans()), "value": draw(gens.rarely(st.none(), 0, 5)),
                "preview": draw(gens.rarely(st.just(False), True)), "reset": draw(st.sampled_from([None, "cc", "request"])),
            })
            if encs[-1]["value"] is not None:
                encs[-1]["value"] = draw(st.integers(0, top))
        ops = []
        for _ in range(draw(st.integers(3, 22))):
            k = draw(st.integers(0, 15))
            i = draw(st.integers(0, len(encs) - 1))
            if k <= 6:
                ops.append(["turn", i, draw(st.one_of(st.sampled_from([-1, 1, -2, 2]), st.integers(-60, 60), st.integers(-2000, 2000)))])
            elif k <= 9:
                ops.append(["accept"])
            elif k <= 11:
                ops.append(["cancel"])
            elif k <= 13:
                ops.append(["device", i, draw(st.integers(0, mapspec.max_value(encs[i]["spec"])))])
            elif k == 14:
                ops.append(["reset", draw(st.integers(0, 3))])
            else:
                ops.append(["wait", draw(st.sampled_from([50, 300, 1000, 2500]))])
        return {"encs": encs, "ops": ops, "start": draw(st.integers(-3, 3)), "cancel": draw(st.booleans()), "swap": draw(gens.rarely(st.just(True), False, 3))}
    return f()


RESET = {"kind": "cc", "c": 99}
RESET_REQ = {"kind": "nrpn", "manu": 0, "func": 1, "page": 9, "num": 9}


def run(case, rec):
    with World() as w:
        E = w.get("controller.actions.EncoderAction", "EncoderAction")
        BUTTON = w.get("clients.local.actions.encoder_button", "ENCODER_BUTTON")
        accept, cancel = BUTTON(), BUTTON()
        labels, encoders = [], []
        encs = case["encs"]
        for i, a in enumerate(encs):
            m = mapspec.make(w, a["spec"], "P%d" % i, request=a["request"])
            # one button can accept for one wheel and cancel for another
            swapped = case["swap"] and i == 1
            kw = {"accept_action": cancel if swapped else accept}
            if case["cancel"]:
                kw["cancel_action"] = accept if swapped else cancel
            for k, name in (("max", "max_value"), ("step", "step_width")):
                if a[k] is not None:
                    kw[name] = a[k]
            if a["min"]:
                kw["min_value"] = a["min"]
            labels.append(label(w, y=60 * i, text="regular", callback=text_source(w, lambda: "regular")) if a["preview"] else None)
            if a["preview"]:
                kw["preview_display"] = labels[i]
            if a["reset"] == "cc":
                kw["preview_reset_mapping"] = mapspec.make(w, RESET, "reset", request=False)
            elif a["reset"]:
                kw["preview_reset_mapping"] = mapspec.make(w, RESET_REQ, "reset2")
            encoders.append(E(mapping=m, **kw))
        inputs = [{"kind": "encoder", "actions": [e], "position": case["start"]} for e in encoders]
        n = len(inputs)
        inputs += [{"actions": [accept]}, {"actions": [cancel]}]
        app = App(w, inputs, splash=splash_callback(w, root(w, [l for l in labels if l])))
        sets = []
        device, waiting = {}, set()
        reset_value = [1]

        def on_send(r):
            if r == mapspec.request_rec(RESET_REQ):
                app.port.push(*mapspec.answer_recs(RESET_REQ, reset_value[0]))
                return
            for i, a in enumerate(encs):
                if r == mapspec.request_rec(a["spec"]):
                    if device.get(i) is not None:
                        app.port.push(*mapspec.answer_recs(a["spec"], device[i]))
                    else:
                        waiting.add(i)
                    return
            sets.append(r)

        app.port.on_send = on_send
        value = [a["value"] for a in encs]
        for i, v in enumerate(value):
            if v is not None:
                device[i] = v
        app.init()
        for i, a in enumerate(encs):
            if value[i] is not None and not a["request"]:
                app.feed(*mapspec.answer_recs(a["spec"], value[i]))
        app.feed(("cc", 99, 1))
        app.settle()
        pre = [None] * n
        held = [0] * n            # until when an accepted preview may still be shown
        pos = [case["start"]] * n
        steps = [a["step"] if a["step"] is not None else (1 if a["spec"]["kind"] == "cc" else 80) for a in encs]
        tops = [a["max"] if a["max"] is not None else mapspec.max_value(a["spec"]) for a in encs]
        accepted = discarded = moved = 0
        for op in case["ops"]:
            sets.clear()
            exp = []
            k = op[0]
            if k == "turn":
                _, i, t = op
                old = int(pos[i] * steps[i])
                pos[i] += t
                d = int(pos[i] * steps[i]) - old
                if d:
                    known = pre[i] is not None or value[i] is not None
                    base = pre[i] if pre[i] is not None else (value[i] if known else -1)
                    new = min(tops[i], max(encs[i]["min"], base + d))
                    if value[i] is None and not known:
                        value[i] = 0
                    if new != base or not known:
                        moved += pre[i] is not None
                        pre[i] = new
                app.models[i].position = pos[i]
                app.tick()
            elif k in ("accept", "cancel"):
                for i in range(n):
                    if (k == "accept") != (case["swap"] and i == 1):
                        if pre[i] is not None:
                            exp.append(mapspec.set_rec(encs[i]["spec"], pre[i]))
                            value[i] = device[i] = pre[i]
                            pre[i] = None
                            held[i] = w.clock.ms + 1500 + 250
                            accepted += 1
                    elif case["cancel"]:
                        discarded += pre[i] is not None
                        pre[i] = None
                        held[i] = 0
                app.tap(n + (k == "cancel"))
            elif k == "device":
                _, i, v = op
                device[i] = value[i] = v
                if i in waiting or not encs[i]["request"]:
                    app.feed(*mapspec.answer_recs(encs[i]["spec"], v))
            elif k == "reset":
                if reset_value[0] != op[1]:
                    for i, a in enumerate(encs):
                        if a["reset"] and a["preview"]:
                            discarded += pre[i] is not None
                            pre[i] = None
                            held[i] = 0
                reset_value[0] = op[1]
                app.feed(("cc", 99, op[1]))
                app.settle()
            else:
                app.run(op[1])
            expect(sets == exp, f"{op} sent {sets}, expected {exp} (history {case['ops']}, encoders {encs})")
            for i, l in enumerate(labels):
                if not l:
                    continue
                if pre[i] is not None:
                    text = f"P{i}: {round(pre[i] * 100 / tops[i])}%"
                    expect(l.text == text, f"preview of encoder {i} shows {l.text!r} after {op}, expected {text!r} (history {case['ops']})")
                elif held[i] < w.clock.ms:
                    expect(l.text == "regular", f"label of encoder {i} shows {l.text!r} after {op} although nothing is preselected (history {case['ops']})")
            sets.clear()
            app.settle()
            expect(not sets, f"{sets} sent without accepting after {op}")
        rec.nontrivial_if(accepted and (moved or discarded))
        rec.label("accepted", accepted)
        rec.label("discarded", discarded)


TESTS = [Test("preselection", cases, run, quick=1500, thorough=60000)]
