import math
from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect, label, root, splash_callback, flat
from .. import gens, fakes

ID = "C20"
SCALE = 2
RULE = ("One to four labels (text width, stroke, colours, bounds, initial texts, scale) on a screen; random orders of text, background and text colour assignments before and after the screen is shown, with memory getting low. After each step all items in the display group are compared with a reference: texts, wrapping, colours, positions. "
        "Non-trivial: at least one label changed its background after it was shown and at least one text was longer than a line.")
ASSUMPTIONS = ["The wrapping routine of the display library is replaced by a greedy one with 10 pixels per character."]


def colors():
    return st.one_of(gens.color, st.sampled_from([[0, 0, 0], [255, 255, 255], [255, 0, 0], [0, 255, 0], [0, 0, 255], [140, 140, 140], [139, 139, 139], [141, 141, 141], [255, 255, 0]]))


def texts():
    return st.one_of(
        st.sampled_from(["", "A", "Some Text", "0"]),
        st.lists(st.text("abcXYZ019%/-", min_size=1, max_size=9), min_size=1, max_size=8).map(" ".join),
        st.integers(-5, 20000))


def cases():
    @st.composite
    def f(draw):
        labels = []
        for _ in range(draw(st.integers(1, 4))):
            stroke = draw(st.integers(0, 4))
            labels.append({
                "x": draw(st.integers(0, 200)), "y": draw(st.integers(0, 200)), "w": draw(st.integers(2 * stroke + 1, 240)), "h": draw(st.integers(2 * stroke + 1, 100)),
                "stroke": stroke, "back": draw(st.one_of(st.none(), colors(), colors())), "color": draw(st.one_of(st.none(), st.none(), colors())),
                "text": draw(st.one_of(st.none(), texts())), "max": draw(st.one_of(st.none(), st.integers(100, 240))),
                "scale": draw(st.sampled_from([1, 2])), "spacing": draw(st.sampled_from([None, 0.8])),
            })
        ops = []
        for _ in range(draw(st.integers(1, 14))):
            i = draw(st.integers(0, len(labels) - 1))
            k = draw(st.integers(0, 9))
            if k <= 3:
                ops.append(["text", i, draw(texts())])
            elif k <= 6:
                if labels[i]["back"] is not None:
                    ops.append(["back", i, draw(colors())])
            elif k == 7:
                ops.append(["color", i, draw(st.one_of(st.none(), colors()))])
            elif k == 8:
                ops.append(["init"])
            else:
                ops.append(["run"])
        if ["init"] not in ops:
            ops.insert(draw(st.integers(0, len(ops))), ["init"])
        return {"labels": labels, "ops": ops, "low": draw(gens.rarely(st.just(True), False, 4))}
    return f()


def tup(c):
    return None if c is None else tuple(c)


def contrast(back):
    """Allowed automatic text colours"""
    if back is None:
        return {(255, 255, 255)}
    lum = back[0] * 0.2126 + back[1] * 0.7152 + back[2] * 0.0722
    ret = set()
    if lum < 141:
        ret.add((255, 255, 255))
    if lum > 139:
        ret.add((0, 0, 0))
    return ret


def run(case, rec):
    with World(mem_free=1000 if case["low"] else 100 * 1024) as w:
        L = case["labels"]
        ui = w.get("ui.elements", "DisplayLabel")
        labels = []
        for a in L:
            kw = {"stroke": a["stroke"]}
            for k, n in (("text", "text"), ("max", "maxTextWidth"), ("spacing", "lineSpacing")):
                if a[k] is not None:
                    kw[n] = a[k]
            if a["color"] is not None:
                kw["textColor"] = tuple(a["color"])
            B = w.get("ui.ui", "DisplayBounds")
            lay = {"font": "/fonts/H20.pcf", **kw}
            if a["back"] is not None:
                lay["backColor"] = tuple(a["back"])
            labels.append(ui(layout=lay, bounds=B(a["x"], a["y"], a["w"], a["h"]), scale=a["scale"]))
        app = App(w, [], splash=splash_callback(w, root(w, labels)))
        state = [{"text": "" if a["text"] is None else str(a["text"]), "back": tup(a["back"]),
                  "color": {tup(a["color"])} if a["color"] is not None else contrast(tup(a["back"])), "auto": a["color"] is None} for a in L]
        inited = low = False
        changed = long = 0

        def check(op):
            where = f" after {op} (history {case['ops']})"
            for i, (l, s) in enumerate(zip(labels, state)):
                expect(l.text == s["text"], f"text of label {i} is {l.text!r} instead of {s['text']!r}{where}")
            if not inited:
                return
            items = list(flat(app.display.tft.current))
            want = []
            for a, s in zip(L, state):
                if s["back"] is not None:
                    want.append(("rect", a, s))
                want.append(("label", a, s))
            expect(len(items) == len(want), f"{len(items)} items on screen, expected {len(want)}")
            for (it, x, y), (k, a, s) in zip(items, want):
                if k == "rect":
                    st_ = a["stroke"]
                    expect(isinstance(it, fakes.Rect), f"{it} drawn instead of a background")
                    expect((x + it.x, y + it.y, it.width, it.height) == (a["x"] + st_, a["y"] + st_, a["w"] - 2 * st_, a["h"] - 2 * st_),
                           f"background drawn at {(x + it.x, y + it.y, it.width, it.height)} for the bounds {(a['x'], a['y'], a['w'], a['h'])} with stroke {st_}")
                    expect(tup(it.fill) == s["back"], f"background is {it.fill} instead of {s['back']}{where}")
                else:
                    expect(isinstance(it, fakes.Label), f"{it} drawn instead of a text")
                    expect(tuple(it.anchor_point) == (0.5, 0.5), f"anchor point {it.anchor_point}")
                    px, py = x + it.anchored_position[0], y + it.anchored_position[1]
                    expect(abs(px - (a["x"] + a["w"] / 2)) < 1 and abs(py - (a["y"] + a["h"] / 2)) < 1, f"text centered at {(px, py)} for the bounds {(a['x'], a['y'], a['w'], a['h'])}")
                    lines = it.text.split("\n")
                    if a["max"] is None:
                        expect(it.text == s["text"], f"{it.text!r} on screen, expected {s['text']!r}{where}")
                    else:
                        expect(it.text.split() == s["text"].split(), f"{it.text!r} on screen, expected the words of {s['text']!r}{where}")
                        expect(all(10 * len(x) <= a["max"] for x in lines), f"{it.text!r} on screen is wider than {a['max']} pixels{where}")
                        n = len(s["text"])
                        expect(len(lines) == 1 or n * 10 > a["max"], f"{it.text!r} has been wrapped although it fits into {a['max']} pixels")
                    expect(tup(it.color) in s["color"], f"text colour is {it.color}, expected {s['color']} on background {s['back']}{where}")
                    expect(it.scale == a["scale"], f"scale is {it.scale}, expected {a['scale']}")
                    expect(it.line_spacing == (1 if a["spacing"] is None else a["spacing"]), f"line spacing is {it.line_spacing}")

        check("creation")
        for op in case["ops"]:
            k = op[0]
            if k == "text":
                labels[op[1]].text = op[2]
                state[op[1]]["text"] = "Low Memory!" if low else str(op[2])
                m = L[op[1]]["max"]
                long += bool(m and len(str(op[2])) * 10 > m)
            elif k == "back":
                s = state[op[1]]
                if s["back"] != tuple(op[2]):
                    changed += inited
                    s["back"] = tuple(op[2])
                    s["color"] = {tuple(L[op[1]]["color"])} if L[op[1]]["color"] is not None else contrast(s["back"])
                labels[op[1]].back_color = tuple(op[2])
                expect(tuple(labels[op[1]].back_color) == tuple(op[2]), f"back_color is {labels[op[1]].back_color} after {op}")
            elif k == "color":
                labels[op[1]].text_color = tup(op[2])
                state[op[1]]["color"] = {tuple(op[2])} if op[2] is not None else contrast(state[op[1]]["back"])
            elif k == "init":
                if not inited:
                    app.init()
                    inited = True
                    low = case["low"]
            elif inited:
                app.settle()
            check(op)
        rec.nontrivial_if(changed and (long or case["low"] or all(a["max"] is None for a in L)))
        rec.label("low memory", case["low"])
        rec.label("wrapped", long)


def rainbow():
    with World() as w:
        l = label(w, back=((255, 0, 0), (0, 255, 0)))
        app = App(w, [], splash=splash_callback(w, root(w, [l])))
        try:
            app.init()
        except Exception:
            return True
        return False


KNOWN = {"rainbow": rainbow}
TESTS = [Test("screen", cases, run, quick=3000, thorough=150000)]
