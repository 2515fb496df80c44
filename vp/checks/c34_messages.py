from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect, label, root, splash_callback
from .. import gens
from .c12_leds import division

ID = "C34"
RULE = ("One to four switches with custom messages (with and without release message) or rotating messages (lists of any lengths for press, release, LED colours, label colours and texts, as lists or tuples, with one or several individually coloured LEDs), any valid byte sequences; "
        "histories of overlapping presses and releases on all of them; all bytes sent, LEDs and labels are compared with a reference after each step. Non-trivial: a rotating switch wrapped around, and a message with other than three bytes has been sent.")

b7 = st.integers(0, 127)
message = st.one_of(
    st.lists(b7, min_size=1, max_size=12).map(lambda l: (0xf0, *l, 0xf7)), st.tuples(st.integers(0xc0, 0xdf), b7), st.tuples(st.integers(0x80, 0xbf), b7, b7), st.tuples(st.integers(0xc0, 0xdf), b7), st.tuples(st.integers(0xe0, 0xef), b7, b7), st.sampled_from([(0xf8,), (0xfa,), (0xfc,), (0xfe,)]),
    st.lists(b7, min_size=1, max_size=12).map(lambda l: (0xf0, *l, 0xf7)), st.tuples(st.just(0xb0), b7, b7)).map(list)


def cases():
    @st.composite
    def f(draw):
        sw = []
        for _ in range(draw(st.integers(1, 4))):
            d = {"kind": draw(st.sampled_from(["custom", "rotate", "rotate"])), "pixels": draw(st.integers(0, 4)), "b": draw(st.sampled_from([0.125, 0.5, 1])), "label": draw(gens.rarely(st.just(False), True)), "tuples": draw(st.booleans())}
            if d["kind"] == "custom":
                d.update(message=draw(message), release=draw(st.one_of(st.none(), message)), color=draw(gens.color), text=draw(st.sampled_from(["foo", ""])))
            else:
                n = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
                d.update(messages=draw(st.one_of(st.lists(message, min_size=1, max_size=5), gens.rarely(st.none(), [[0xb0, 1, 2]]))), release=draw(gens.rarely(st.lists(message, min_size=1, max_size=4), None, 3)), n=n,
                         leds=[draw(st.lists(gens.color, min_size=1, max_size=4)) for _ in range(n)] if n > 1 else draw(gens.rarely(st.none(), draw(st.lists(gens.color, min_size=1, max_size=4)))),
                         display=draw(st.one_of(st.none(), st.lists(gens.color, min_size=1, max_size=4))), texts=draw(gens.rarely(st.none(), draw(st.lists(st.sampled_from(["a", "b", "c", "dd"]), min_size=1, max_size=4)))))
                if n > 1:
                    d["pixels"] = draw(st.integers(n - 1, n + 2))
            sw.append(d)
        ops = [[draw(st.sampled_from(["tap", "tap", "tap", "press", "release"])), draw(st.integers(0, len(sw) - 1))] for _ in range(draw(st.integers(2, 40)))]
        return {"switches": sw, "ops": ops}
    return f()


def run(case, rec):
    with World() as w:
        labels, inputs, px, shown = [], [], 0, []
        for s in case["switches"]:
            seq = tuple if s["tuples"] else list

            def conv(l):
                return None if l is None else seq(tuple(x) if isinstance(x, (list, tuple)) else x for x in l)

            d = None
            if s["label"]:
                d = label(w, y=18 * len(labels), h=18, back=(7, 7, 7), text="init")
                labels.append(d)
            shown.append(d)
            if s["kind"] == "custom":
                acts = [w.get("clients.local.actions.custom", "CUSTOM_MESSAGE")(conv(s["message"]), message_release=conv(s["release"]), text=s["text"], color=tuple(s["color"]), led_brightness=s["b"], display=d)]
            else:
                kw = {}
                if s["texts"] is not None:
                    kw["texts"] = conv(s["texts"])
                if s["display"] is not None:
                    kw["display_colors"] = conv(s["display"])
                elif s["n"] > 1:
                    kw["display_colors"] = conv([[1, 1, 1]])
                if s["n"] > 1:
                    kw["num_leds"] = s["n"]
                acts = w.get("clients.local.actions.rotate", "ROTATING_MESSAGES")(
                    messages=conv(s["messages"]), messages_release=conv(s["release"]), led_colors=[conv(l) for l in s["leds"]] if s["n"] > 1 else conv(s["leds"]), led_brightness=s["b"], display=d, **kw)
                acts = acts if isinstance(acts, list) else [acts]
            inputs.append({"actions": acts, "pixels": list(range(px, px + s["pixels"]))})
            px += s["pixels"]
        app = App(w, inputs, splash=splash_callback(w, root(w, labels)))
        app.init()
        app.settle()
        app.sent()
        pos = [0] * len(inputs)
        down = [False] * len(inputs)
        start_leds = [tuple(x) for x in app.leds()]

        def raw(r):
            if r[0] == "raw":
                return list(r[1:])
            if r[0] == "cc":
                return None
            return None

        def check(op):
            leds = app.leds()
            for i, s in enumerate(case["switches"]):
                if s["kind"] == "custom":
                    looks, back, text = [s["color"]], s["color"], s["text"]
                else:
                    at = lambda l: l[pos[i] % len(l)] if l is not None else None
                    looks = [at(l) for l in s["leds"]] if s["n"] > 1 else [at(s["leds"])]
                    back = at(s["display"]) if s["display"] is not None else ([1, 1, 1] if s["n"] > 1 else at(s["leds"]))
                    text = at(s["texts"]) if s["texts"] is not None else None
                for n, seg in division(s["pixels"], list(range(len(looks)))).items():
                    for k in seg:
                        p = inputs[i]["pixels"][k]
                        want = tuple(int(x * s["b"]) for x in looks[n]) if looks[n] is not None else start_leds[p]
                        expect(tuple(leds[p]) == want, lambda: f"LED {k} of switch {i} is {leds[p]} after {op}, expected {want} at position {pos[i]} of {s}")
                d = shown[i]
                if d:
                    want = text if text is not None else "init"
                    expect(d.text == want, lambda: f"label of switch {i} shows {d.text!r} after {op}, expected {want!r} at position {pos[i]} of {s}")
                    want = tuple(back) if back is not None else (7, 7, 7)
                    expect(tuple(d.back_color) == want, lambda: f"label of switch {i} has colour {d.back_color} after {op}, expected {want} at position {pos[i]} of {s}")

        def go(i, on, op):
            s = case["switches"][i]
            (app.press if on else app.release)(i)
            key = ("messages" if s["kind"] == "rotate" else "message") if on else "release"
            m = s[key]
            if s["kind"] == "rotate" and m is not None:
                m = m[pos[i] % len(m)]
            if not on:
                pos[i] += 1
            down[i] = on
            got = [list(r[1:]) for r in app.sent()]
            expect(got == ([] if m is None else [list(m)]), lambda: f"{op} of switch {i} sent {got}, expected {m} at position {pos[i] - (not on)} of {s}")
            check(op)

        check("start")
        odd = wraps = 0
        for kind, i in case["ops"]:
            s = case["switches"][i]
            if kind != "release" and not down[i]:
                go(i, True, [kind, i])
            if kind != "press" and down[i]:
                go(i, False, [kind, i])
            if s["kind"] == "rotate":
                wraps += s["messages"] is not None and len(s["messages"]) > 1 and pos[i] >= len(s["messages"])
                odd += s["messages"] is not None and any(len(m) != 3 for m in s["messages"])
        app.settle()
        check("end")
        expect(not app.sent(), "messages sent without a press")
        rec.nontrivial_if(wraps and odd)


TESTS = [Test("messages", cases, run, quick=1200, thorough=20000)]
