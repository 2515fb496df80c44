from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import App, expect, label, root, splash_callback, flat
from .. import binary, fakes, gens

ID = "C13"
SCALE = 3
RULE = ("One to three on/off actions with random colours (static or computed from the value), brightness and dim settings (own, global, on/off swapped), texts, labels and LED counts; histories of presses, device values, silence and display resets; "
        "LEDs and labels are compared with a reference after each step. Non-trivial: at least one LED or label changed during the history.")
NOTE = "Brightness settings are multiples of 1/8 apart from the defaults. Colours computed by a function depend on the value only."


def run(case, rec):
    with World() as w:
        rig = binary.Rig(w, case, display=True)
        rig.start()
        changes = 0
        last = None

        def check(op):
            nonlocal changes, last
            leds = rig.app.leds()
            pix = 0
            view = []
            for i, (r, s) in enumerate(zip(rig.refs, case["actions"])):
                if s["use_leds"]:
                    exp = r.led()
                    for p in range(pix, pix + s["pixels"]):
                        got = tuple(leds[p])
                        expect(all(abs(a - b) <= 0 for a, b in zip(got, exp)), f"LED {p} of action {i} is {got}, expected {exp} after {op} (state {r.state}, value {r.value})")
                        view.append(got)
                pix += s["pixels"]
                lab = rig.labels[i]
                if lab:
                    expect(tuple(lab.back_color) == r.back(), f"label of action {i} has colour {lab.back_color}, expected {r.back()} after {op} (state {r.state}, value {r.value})")
                    expect(lab.text == r.text(), f"label of action {i} shows {lab.text!r}, expected {r.text()!r} after {op} (state {r.state})")
                    view.append((tuple(lab.back_color), lab.text))
            if last is not None and last != view:
                changes += 1
            last = view

        check("start")
        for op in case["ops"]:
            rig.do(op)
            check(op)
        rec.nontrivial_if(changes > 0)
        rec.label("visible changes", changes)


def fixed_cases():
    color = st.one_of(st.none(), gens.color)
    spec = st.fixed_dictionaries({"text": st.sampled_from(["a", "Fixed", "two words", ""]), "back": color, "color": color, "page": st.sampled_from([0, 0, 1, 2, 3])})
    return st.fixed_dictionaries({
        "labels": st.lists(st.fixed_dictionaries({"back": gens.color, "color": color}), min_size=1, max_size=3),
        "actions": st.lists(st.tuples(st.integers(0, 2), spec), min_size=1, max_size=6),
        "presses": st.lists(st.integers(0, 6), max_size=8),
    })


def run_fixed(case, rec):
    """Fixed texts on labels, some of them on pages (page 0: not paged)"""
    with World() as w:
        FIXED = w.get("clients.local.actions.fixed_text", "DISPLAY_FIXED_TEXT")
        pager = w.get("clients.local.actions.pager", "PagerAction")([{"id": 1}, {"id": 2}, {"id": 3}])
        labels = [label(w, y=20 * i, h=20, back=tuple(l["back"]), text="-", **({"textColor": tuple(l["color"])} if l["color"] else {})) for i, l in enumerate(case["labels"])]
        t = lambda c: tuple(c) if c else None
        seen = set()
        inputs, used = [{"actions": [pager]}], []
        for n, a in case["actions"]:
            n %= len(labels)
            # one text per label and page
            key = [(n, a["page"])] if a["page"] else [(n, p) for p in (0, 1, 2, 3)]
            if (n, 0) in seen or any(k in seen for k in key):
                continue
            seen.update(key)
            kw = {"id": a["page"], "enable_callback": pager.enable_callback} if a["page"] else {}
            inputs.append({"actions": [FIXED(text=a["text"], display=labels[n], back_color=t(a["back"]), text_color=t(a["color"]), **kw)]})
            used.append((n, a))
        app = App(w, inputs, splash=splash_callback(w, root(w, labels)))
        app.init()
        app.settle()
        page = 1
        for i in [None] + case["presses"]:
            if i is not None:
                i %= len(inputs)
                app.tap(i)
                app.settle()
                page = page % 3 + 1 if i == 0 else page
            for n, a in used:
                if a["page"] in (0, page):
                    items = list(flat(app.display.tft.current))
                    shown = [it for it, x, y in items if isinstance(it, fakes.Label)][n]
                    expect(shown.text == a["text"], lambda: f"label {n} shows {shown.text!r} instead of {a} on page {page}")
                    if a["back"]:
                        expect(tuple(labels[n].back_color) == tuple(a["back"]), lambda: f"label {n} has background {labels[n].back_color} instead of {a} on page {page}")
                    if a["color"]:
                        expect(tuple(shown.color) == tuple(a["color"]), lambda: f"text of label {n} has colour {shown.color} instead of {a} on page {page}")
            expect(not app.sent(), "a fixed text sent something")
        rec.nontrivial_if(len(case["presses"]) > 1 and any(a["color"] for _, a in used))


TESTS = [Test("appearance", lambda: binary.cases(True), run, quick=2000, thorough=60000),
         Test("fixed", fixed_cases, run_fixed, quick=500, thorough=8000)]
