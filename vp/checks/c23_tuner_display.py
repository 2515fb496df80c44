from hypothesis import strategies as st
from ..kit import Test
from ..world import World, nrpn_value
from ..app import App, expect, splash_callback, flat
from .. import fakes, gens

ID = "C23"
RULE = ("Tuner displays with any area, marker width, zoom and calibration limits receive notes and deviances (near the limits, the centre and the ends, and anywhere); "
        "marker position and all colours are checked after each message, monotony over all pairs of messages. Non-trivial: at least one in tune and one out of tune deviance, and at least one note.")

NAMES = ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"]


def cases():
    @st.composite
    def f(draw):
        lo, hi = sorted([draw(st.one_of(st.just(7842), st.integers(0, 16383))), draw(st.one_of(st.just(8542), st.integers(0, 16383)))])
        width = draw(st.one_of(st.just(5), st.integers(1, 40)))
        area = [draw(st.integers(0, 100)), draw(st.integers(0, 100)), draw(st.integers(width, 320)), draw(st.integers(40, 240))]
        near = st.sampled_from([lo, hi, 8192, 0, 16383]).flatmap(lambda v: st.integers(-2, 2).map(lambda d: max(0, min(16383, v + d))))
        dev = st.one_of(near, near, st.integers(0, 16383), st.integers(7000, 9400))
        ops = draw(st.lists(st.one_of(dev.map(lambda v: ["dev", v]), dev.map(lambda v: ["dev", v]), st.one_of(st.integers(0, 127), st.integers(0, 16383)).map(lambda v: ["note", v])), min_size=2, max_size=20))
        return {"area": area, "width": width, "height": draw(st.integers(1, 60)), "zoom": draw(st.sampled_from([None, 1, 2.4, 2.4, 0.5, 3.7, 10, 1.01, 100])),
                "lo": lo, "hi": hi, "names": draw(gens.rarely(st.just(True), False)), "callback": draw(gens.rarely(st.just(True), False)), "ops": ops}
    return f()


def run(case, rec):
    with World() as w:
        TunerDisplay = w.get("ui.elements", "TunerDisplay")
        B = w.get("ui.ui", "DisplayBounds")
        K = w.get("clients.kemper", "KemperMappings")
        x, y, ww, h = case["area"]
        names = ["n%d" % i for i in range(12)] if case["names"] else None
        IN, OUT, NEUTRAL = (1, 200, 3), (200, 100, 5), (120, 121, 122)
        kw = dict(color_in_tune=IN, color_out_of_tune=OUT, color_neutral=NEUTRAL, calibration_high=case["hi"], calibration_low=case["lo"], note_names=names)
        if case["callback"]:
            width = 5
            el = w.get("ui.ui", "DisplayElement")(bounds=B(x, y, ww, h))
            splash = w.get("clients.kemper", "TunerDisplayCallback")(splash_default=el, **kw)
            if ww < width:
                return
        else:
            width = case["width"]
            if case["zoom"] is not None:
                kw["deviance_zoom"] = case["zoom"]
            splash = splash_callback(w, TunerDisplay(mapping_note=K.TUNER_NOTE(), mapping_deviance=K.TUNER_DEVIANCE(), bounds=B(x, y, ww, h), layout={"font": "/fonts/H20.pcf"}, deviance_width=width, deviance_height=case["height"], **kw))
        app = App(w, [], splash=splash)
        app.init()
        app.settle(50)
        if case["callback"]:
            app.feed(nrpn_value(0x7f, 0x7e, 1))

        def shown():
            items = list(flat(app.display.tft.current))
            rects = [(r, rx) for r, rx, ry in items if isinstance(r, fakes.Rect)]
            labels = [l for l, lx, ly in items if isinstance(l, fakes.Label)]
            # the last rectangle drawn is the marker
            return rects[-1][0], labels[-1]

        seen = []
        note = dev = None
        kinds = set()
        for op in case["ops"]:
            if op[0] == "note":
                app.feed(nrpn_value(0x7d, 0x54, op[1]))
                note = op[1]
            else:
                app.feed(nrpn_value(0x7c, 0x0f, op[1]))
                dev = op[1]
            marker, lab = shown()
            if note is not None:
                want = (names or NAMES)[note % 12]
                expect(lab.text == want, lambda: f"note {note} is shown as {lab.text!r}, expected {want!r}")
            if dev is None:
                continue
            good = case["lo"] <= dev <= case["hi"]
            kinds.add(good)
            color = IN if good else OUT
            expect(tuple(marker.fill) == color, lambda: f"marker has the colour {marker.fill} for deviance {dev} with limits {case['lo']}..{case['hi']}, expected {color}")
            expect(lab.color == color or tuple(lab.color) == color, lambda: f"note has the colour {lab.color} for deviance {dev} with limits {case['lo']}..{case['hi']}, expected {color}")
            pos = marker.x
            expect(isinstance(pos, int) and x <= pos and pos + width <= x + ww, lambda: f"marker of width {width} is at {pos} for deviance {dev}, its area is {x}..{x + ww}")
            if 8191 <= dev <= 8193:
                mid = x + (ww - width) / 2
                expect(abs(pos - mid) <= 1 + (ww * (case["zoom"] or 2.4) * 2 / 16384), lambda: f"marker is at {pos} when in tune ({dev}), the centre is {mid}")
            zoom = 2.4 if case["callback"] or case["zoom"] is None else case["zoom"]
            if zoom >= 1 and dev in (0, 16383):
                end = x if dev == 0 else x + ww - width
                expect(abs(pos - end) <= 1, lambda: f"marker is at {pos} for deviance {dev}, expected the end at {end}")
            for d2, p2 in seen:
                expect((dev - d2) * (pos - p2) >= 0, lambda: f"marker at {p2} for deviance {d2}, but at {pos} for {dev}")
            seen.append((dev, pos))
        rec.nontrivial_if(len(kinds) == 2 and note is not None)
        rec.label("deviances", len(seen))


TESTS = [Test("display", cases, run, quick=1500, thorough=60000)]
