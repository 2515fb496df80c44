from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build
from ..app import App, expect, label, root, splash_callback, text_source
from .. import gens

ID = "C19"
SCALE = 2
RULE = ("One or two labels with a regular content that may change any time, up to three clients (or anonymous parties) which preview texts and parameter values, with and without timeout, blinking and stay flag; histories of previews, resets, content changes and updates at arbitrary times, compared with a reference after each step. "
        "Second test: a pedal, an encoder and parameter up/down switches previewing on the same label of a running controller. "
        "Non-trivial: at least two previews were shown and at least one ended by itself or was replaced by another one.")

ORIG = (255, 255, 255)


def cases():
    @st.composite
    def f(draw):
        nl = draw(gens.rarely(st.just(2), 1, 3))
        ops = []
        for _ in range(draw(st.integers(3, 25))):
            k = draw(st.integers(0, 12))
            l = draw(st.integers(0, nl - 1))
            if k <= 3:
                ops.append(["preview", l, draw(st.sampled_from([None, 0, 1, 2])), {
                    "text": draw(st.sampled_from(["foo", "bar", "x" * 20])),
                    "stay": draw(st.booleans()),
                    "timeout_millis": draw(st.sampled_from([1500, 100, 3000, 0, None, 777])),
                    "blink_interval_millis": draw(st.sampled_from([None, 0, 200, 400])),
                    "blink_color": draw(st.sampled_from([[200, 200, 200], [9, 8, 7]])),
                }])
            elif k == 4:
                ops.append(["value", l, draw(st.sampled_from([None, 0, 1, 2])), draw(st.integers(0, 16383)), draw(st.sampled_from([16383, 127, 1000])),
                            draw(st.sampled_from(["Wah", "Vol"])), draw(st.booleans())])
            elif k == 5:
                ops.append(["reset", l, draw(st.booleans())])
            elif k == 6:
                ops.append(["content", l, draw(st.sampled_from(["a", "b", "c"]))])
            elif k <= 10:
                ops.append(["run", draw(st.sampled_from([30, 150, 450, 900, 1600])), draw(st.sampled_from([10, 50, 200]))])
            else:
                ops.append(["jump", draw(st.integers(1, 4000))])
        return {"labels": nl, "ops": ops, "color": draw(st.sampled_from([None, [1, 2, 3]]))}
    return f()


def run(case, rec):
    with World() as w:
        VP = w.get("controller.preview", "ValuePreview")
        CP = w.get("controller.client", "ClientParameterMapping")
        n = case["labels"]
        regular = ["r%d" % i for i in range(n)]
        labels, previews = [], []
        orig = ORIG if case["color"] is None else tuple(case["color"])
        for i in range(n):
            kw = {} if case["color"] is None else {"textColor": orig}
            labels.append(label(w, y=60 * i, text=regular[i], callback=text_source(w, lambda i=i: regular[i]), **kw))
        cancelled = []

        class Client:
            def __init__(self, i):
                self.i = i

            def cancel(self):
                cancelled.append(self.i)

        clients = [[Client((l, i)) for i in range(3)] for l in range(n)]
        previews = [VP.get(l) for l in labels]
        for l, p in zip(labels, previews):
            expect(VP.get(l) is p, "ValuePreview.get() returned another handler for the same label")
        app = App(w, [], splash=splash_callback(w, root(w, labels)))
        app.init()
        app.settle()
        now = lambda: w.clock.ms
        S = [{"text": None, "end": None, "timeout": None, "stay": False, "blink": None, "color": orig, "old": orig, "others": set(), "since": None} for _ in range(n)]
        shown = ended = 0

        def check(i, op):
            s = S[i]
            if s["text"] is not None:
                expect(labels[i].text == s["text"], f"label {i} shows {labels[i].text!r} instead of the preview {s['text']!r} after {op} (history {case['ops']})")
                c = tuple(labels[i].text_color)
                if s["blink"]:
                    expect(c in (orig, s["color"], s["old"]), f"label {i} has colour {c} while blinking between {orig} and {s['color']}")
                else:
                    expect(c == orig, f"label {i} has colour {c} instead of {orig} while a steady preview is shown (after {op}, history {case['ops']})")
            else:
                expect(labels[i].text == regular[i], f"label {i} shows {labels[i].text!r} instead of its regular content {regular[i]!r} after {op} (history {case['ops']})")
                expect(tuple(labels[i].text_color) == orig, f"label {i} has colour {labels[i].text_color} instead of {orig} after {op} (history {case['ops']})")

        def update(gap):
            nonlocal ended
            for i in range(n):
                s = S[i]
                if s["text"] is None:
                    previews[i].update()
                    continue
                s["gap"] = max(s["gap"], gap)
                before = tuple(labels[i].text_color)
                previews[i].update()
                if not s["stay"] and s["end"] is not None:
                    if now() > s["end"] + 1:
                        s["text"] = None
                        s["end"] = None
                        s["blink"] = None
                        ended += 1
                    elif now() >= s["end"] - 1 and labels[i].text == regular[i]:     # exactly at the threshold
                        s["text"] = None
                        s["end"] = None
                        s["blink"] = None
                if s["text"] is not None and s["blink"]:
                    after = tuple(labels[i].text_color)
                    if after != before:
                        if s["toggled"] is not None:
                            expect(now() - s["toggled"] >= s["blink"], f"label {i} changed colour after {now() - s['toggled']} ms, configured are {s['blink']} ms")
                        s["toggled"] = now()
                        s["old"] = orig
                        expect(after in (orig, s["color"]), f"label {i} has colour {after}")
                    else:
                        # The phase at the beginning is not specified
                        last = s["toggled"] if s["toggled"] is not None else s["since"] + s["blink"] + s["gap"]
                        expect(now() - last <= s["blink"] + s["gap"] + 2 or s["color"] == orig, f"label {i} did not change its colour for {now() - last} ms, configured are {s['blink']} ms")

        for op in case["ops"]:
            k = op[0]
            cancelled.clear()
            if k in ("preview", "value"):
                l, c = op[1], op[2]
                s = S[l]
                kw = {}
                if c is not None:
                    kw["client"] = clients[l][c]
                if s["text"] is not None:
                    ended += 1
                if k == "preview":
                    kw.update({a: (tuple(b) if a == "blink_color" else b) for a, b in op[3].items()})
                    previews[l].preview(**kw)
                    text, timeout, stay, blink, color = op[3]["text"], op[3]["timeout_millis"], op[3]["stay"], op[3]["blink_interval_millis"], tuple(op[3]["blink_color"])
                else:
                    _, _, _, v, top, name, cb = op
                    v = min(v, top)
                    m = CP.get(name=name)
                    if cb:
                        kw["text_callback"] = lambda x: f"<{x}>"
                    previews[l].preview_mapping(value=v, mapping=m, max_value=top, **kw)
                    text = f"<{v}>" if cb else f"{name}: {round(v * 100 / top)}%"
                    timeout, stay, blink, color = 1500, False, None, (200, 200, 200)
                others = s["others"] - {c}
                expect(set(x for x in cancelled) == {(l, o) for o in others}, f"{op}: clients {cancelled} were cancelled, expected {sorted(others)} of label {l} (history {case['ops']})")
                if c is not None:
                    s["others"].add(c)
                keep = blink and s["blink"]
                s["old"] = tuple(labels[l].text_color) if keep else orig     # until the next change
                s.update(text=text, stay=stay, timeout=timeout or None, end=now() + timeout if timeout else None, blink=blink or None, color=color)
                s.update(since=now(), toggled=None, gap=0)
                shown += 1
            elif k == "reset":
                _, l, imm = op
                s = S[l]
                previews[l].reset(immediately=imm)
                if s["text"] is not None:
                    s["blink"] = None
                    s["stay"] = False
                    if imm or s["timeout"] is None:
                        s["text"] = None
                        s["end"] = None
                        ended += 1
                    else:
                        s["end"] = now() + s["timeout"]
            elif k == "content":
                regular[op[1]] = op[2]
                labels[op[1]].update_label()
            elif k == "run":
                t = op[1]
                while t > 0:
                    w.clock.advance(op[2])
                    t -= op[2]
                    update(op[2])
                    for i in range(n):
                        check(i, op)
            else:
                w.clock.advance(op[1])
                update(op[1])
            for i in range(n):
                check(i, op)
        rec.nontrivial_if(shown >= 2 and ended)
        rec.label("previews", shown)
        rec.label("ended", ended)



def app_cases():
    @st.composite
    def f(draw):
        ops = []
        for _ in range(draw(st.integers(3, 22))):
            k = draw(st.integers(0, 11))
            if k <= 1:
                ops.append(["pedal", draw(st.integers(0, 127))])
            elif k <= 4:
                ops.append(["turn", draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([-1, 1, 5, -5, 30]))])
            elif k <= 6:
                ops.append(["step"])
            elif k == 7:
                ops.append(["accept"])
            elif k == 8:
                ops.append(["content", draw(st.sampled_from(["a", "b"]))])
            else:
                ops.append(["wait", draw(st.sampled_from([30, 300, 700, 1600, 3500]))])
        t = st.sampled_from([1500, 500, 3000])
        return {"ops": ops, "pedal": draw(t), "encs": [draw(t), draw(t)], "step": draw(t), "cb": draw(st.booleans()), "conv": draw(st.booleans())}
    return f()


def run_app(case, rec):
    with World() as w:
        CP = w.get("controller.client", "ClientParameterMapping")
        A = w.get("controller.actions.AnalogAction", "AnalogAction")
        E = w.get("controller.actions.EncoderAction", "EncoderAction")
        BUTTON = w.get("clients.local.actions.encoder_button", "ENCODER_BUTTON")
        UP = w.get("clients.local.actions.param_change", "PARAMETER_UP_DOWN")
        regular = ["r"]
        l = label(w, text="r", callback=text_source(w, lambda: regular[0]), back=None)
        cc = lambda name, n: CP.get(name=name, set=build(("cc", n, 0)), response=build(("cc", n, 0)))
        conv = {"convert_value": lambda v: f"={v}"} if case["conv"] else {}
        step = {"preview_text_callback": lambda v: f"~{v}"} if case["cb"] else {}
        accept = BUTTON()
        app = App(w, [
            {"kind": "pot", "actions": [A(mapping=cc("Ped", 11), min_raw_value=None, change_display=l, change_timeout_millis=case["pedal"], **conv)], "value": 0},
            {"kind": "encoder", "actions": [E(mapping=cc("Dir", 12), preview_display=l, preview_timeout_millis=case["encs"][0], **conv)]},
            {"kind": "encoder", "actions": [E(mapping=cc("Pre", 13), preview_display=l, preview_timeout_millis=case["encs"][1], accept_action=accept, **conv)]},
            {"actions": [UP(mapping=cc("Val", 14), offset=3, repeat_interval_millis=0, change_display=l, change_timeout_millis=case["step"], **step)]},
            {"actions": [accept]},
        ], splash=splash_callback(w, root(w, [l])))
        value = {12: 64, 13: 64, 14: 10}

        def on_send(r):
            if r[0] == "cc" and r[1] in value and app_ready[0]:
                value[r[1]] = r[2]
                app.port.push(("cc", r[1], r[2]))

        app_ready = [False]
        app.port.on_send = on_send
        app.init()
        app.settle()
        for n, v in value.items():
            app.feed(("cc", n, v))
        app.settle(3000)
        app_ready[0] = True
        expect(l.text == "r", f"label shows {l.text!r} before anything has been previewed")
        sh, end, pre = None, None, None       # shown preview, its end, pedal value
        ped, npre, ended, pos = 0, 0, 0, [0, 0]

        def text(name, v):
            return f"={v}" if case["conv"] and name != "Val" else f"~{v}" if case["cb"] and name == "Val" else f"{name}: {round(v * 100 / 127)}%"

        for op in case["ops"]:
            k = op[0]
            old = sh
            if k == "pedal":
                app.models[0].value = op[1] * 512
                app.run(60)
                if op[1] != ped:
                    ped, sh, end, pre = op[1], text("Ped", op[1]), w.clock.ms + case["pedal"], None
                    npre += 1
            elif k == "turn":
                i, d = op[1:]
                base = pre if i and pre is not None else value[12 + i]
                v = min(127, max(0, base + d))
                pos[i] += d
                app.models[1 + i].position = pos[i]
                app.tick()
                if v != base:
                    sh, end = text(["Dir", "Pre"][i], v), w.clock.ms + case["encs"][0] if not i else None
                    pre = v if i else None
                    npre += 1
            elif k == "step":
                v = min(127, value[14] + 3)
                app.tap(3)
                sh, end, pre = text("Val", v), w.clock.ms + case["step"], None
                npre += 1
            elif k == "accept":
                app.tap(4)
                if pre is not None:
                    end, pre = w.clock.ms + case["encs"][1], None
                else:
                    continue          # unspecified for the previews of others
            elif k == "content":
                regular[0] = op[1]
                l.update_label()
            else:
                t = op[1]
                while t > 0:
                    d = min(t, 200)
                    app.run(d)
                    t -= d
                    if end is not None and w.clock.ms < end - 80:
                        expect(l.text == sh, f"the preview {sh!r} disappeared {end - w.clock.ms} ms too early (label shows {l.text!r}, history {case['ops']})")
            app.settle()
            if end is None or w.clock.ms < end - 80:
                want = sh if sh is not None else regular[0]
                expect(l.text == want, f"label shows {l.text!r} after {op}, expected {want!r} (history {case['ops']})")
            elif w.clock.ms > end + 300:
                ended += sh is not None
                sh = end = None
                expect(l.text == regular[0], f"label shows {l.text!r} after {op}, expected the regular content {regular[0]!r} again (history {case['ops']})")
            if sh is None:
                expect(tuple(l.text_color) == ORIG, f"label has colour {l.text_color} after its preview ended")
        rec.nontrivial_if(npre >= 2 and ended)
        rec.label("app previews", npre)


TESTS = [Test("handler", cases, run, quick=2500, thorough=100000), Test("controller", app_cases, run_app, quick=700, thorough=30000)]
