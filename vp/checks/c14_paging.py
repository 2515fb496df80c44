from hypothesis import strategies as st
from ..kit import Test
from ..world import World, build, KEMPER
from ..app import App, expect, label, root, splash_callback
from .. import gens
from ..kemperdev import Device
from .c12_leds import division

ID = "C14"
SCALE = 3
RULE = ("One or two pagers (rotating or selecting, the second one possibly on a page of the first) with direct page actions, on one to five switches with actions of any page (custom messages, on/off actions with device feedback, rotating messages) sharing LEDs and labels; "
        "histories of taps and device reports; all messages, LEDs and labels are compared with a reference. Second test: a switch has a fixed look on page 1 and Kemper functions on page 2, sharing LEDs and label; whatever is pressed on page 2, then changes at the device or happens in time, page 1 keeps its look and sends only its own messages; returning to page 2 without any change in between shows what it had shown before. Non-trivial: at least one page change and one message sent by an action of a page / use or change of the functions of the other page.")
NOTE = "LEDs and labels nobody uses on a page are left undefined. Brightnesses are multiples of 1/8."

BR = [0, 0.125, 0.25, 0.5, 1]


def cases():
    @st.composite
    def f(draw):
        n_sw = draw(st.integers(2, 6))
        ids = draw(st.permutations([0, 1, 2, 3, "a", "b"]))
        pagers = []
        for k in range(draw(gens.rarely(st.just(2), 1, 3))):
            pages = [{"id": ids[3 * k + i], "color": draw(st.one_of(st.none(), gens.color)), "text": draw(st.one_of(st.none(), st.just("p%d%d" % (k, i))))} for i in range(draw(st.integers(1, 3)))]
            pagers.append({
                "pages": pages, "select": draw(st.one_of(st.none(), st.none(), st.integers(0, len(pages) - 1))),
                "b": draw(st.sampled_from(BR)), "on": draw(st.sampled_from(BR)), "off": draw(st.sampled_from(BR)),
                "switch": k, "label": draw(st.booleans()), "mappings": draw(gens.rarely(st.sampled_from(["cc", "nrpn"]), None, 3)),
                "page": draw(st.one_of(st.none(), st.integers(0, len(pagers[0]["pages"]) - 1))) if k else None,
                "proxies": [],
            })
            for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
                pagers[-1]["proxies"].append([draw(st.integers(0, n_sw - 1)), draw(st.integers(0, len(pages) - 1))])
        switches = []
        n = 0
        for i in range(n_sw):
            own = [k for k, p in enumerate(pagers) if p["switch"] == i or any(x[0] == i for x in p["proxies"])]
            acts = []
            for _ in range(draw(st.integers(0, 5))):
                k = draw(st.integers(0, len(pagers) - 1))
                paged = not own and draw(st.integers(0, 4)) > 0
                acts.append({
                    "kind": draw(st.sampled_from(["custom", "custom", "binary", "rotate"])), "pager": k,
                    "page": draw(st.integers(0, len(pagers[k]["pages"]) - 1)) if paged else None,
                    "color": draw(gens.color), "b": draw(st.sampled_from(BR)), "off": draw(st.sampled_from(BR)), "leds": draw(gens.rarely(st.just(False), True)), "n": n, "count": draw(st.integers(1, 3)),
                })
                n += 1
            switches.append({"leds": draw(st.integers(0, 4)), "actions": acts})
        ops = []
        targets = list(range(n_sw)) + [p["switch"] for p in pagers] * 2
        bins = [a["n"] for s in switches for a in s["actions"] if a["kind"] == "binary"]
        for _ in range(draw(st.integers(2, 14))):
            if bins and draw(st.integers(0, 4)) == 0:
                ops.append(["report", draw(st.sampled_from(bins)), draw(st.integers(0, 1))])
            else:
                ops.append(["tap", draw(st.sampled_from(targets))])
        order = draw(st.permutations(range(n_sw)))
        return {"switches": switches, "pagers": pagers, "ops": ops, "order": list(order)}
    return f()


def run(case, rec):
    with World() as w:
        Pager = w.get("clients.local.actions.pager", "PagerAction")
        CUSTOM = w.get("clients.local.actions.custom", "CUSTOM_MESSAGE")
        ROT = w.get("clients.local.actions.rotate", "ROTATING_MESSAGES")
        BIN = w.get("clients.local.actions.binary_switch", "BINARY_SWITCH")
        PB = w.get("controller.actions", "PushButtonAction")
        M = w.get("controller.client", "ClientParameterMapping")
        tup = lambda c: tuple(c) if c is not None else None

        # ------------------------------------------------ build
        labels = {}
        children = []

        def make_label(key):
            labels[key] = label(w, y=20 * len(children), h=18, back=(1, 2, 3))
            children.append(labels[key])
            return labels[key]

        pagers = []
        for k, p in enumerate(case["pagers"]):
            pages = []
            for q in p["pages"]:
                d = {"id": q["id"]}
                if q["color"] is not None:
                    d["color"] = tup(q["color"])
                if q["text"] is not None:
                    d["text"] = q["text"]
                pages.append(d)
            kw = {}
            if p["select"] is not None:
                kw["select_page"] = p["pages"][p["select"]]["id"]
            if p["mappings"] == "cc":
                kw["mappings"] = [M.get(name="pm%d" % k, set=build(("cc", 1, 0)), response=build(("cc", 1, 0)))]
            elif p["mappings"] == "nrpn":
                kw["mappings"] = [M.get(name="pm%d" % k, request=build(("sx", KEMPER, (2, 0x7f, 0x41, 0, 9, 9))), response=build(("sx", KEMPER, (2, 0x7f, 1, 0, 9, 9))))]
            if p["page"] is not None:
                kw["id"] = case["pagers"][0]["pages"][p["page"]]["id"]
                kw["enable_callback"] = pagers[0].enable_callback
            if p["label"]:
                kw["display"] = make_label(("pager", k))
            pagers.append(Pager(pages=pages, led_brightness=p["b"], led_brightness_on=p["on"], led_brightness_off=p["off"], **kw))

        per_switch = []      # reference items per switch, in order
        real = []
        proxies = {}         # items by (pager, number)
        for i, s in enumerate(case["switches"]):
            items, acts = [], []
            for k, p in enumerate(case["pagers"]):
                if p["switch"] == i:
                    items.append({"t": "pager", "k": k, "leds": True})
                    acts.append(pagers[k])
                for n, (sw, page) in enumerate(p["proxies"]):
                    if sw == i:
                        items.append({"t": "proxy", "k": k, "page": page, "leds": True})
                        acts.append(pagers[k].proxy(case["pagers"][k]["pages"][page]["id"]))
            has_pager = bool(items)
            shown = set()
            for a in s["actions"]:
                kw = {"use_leds": a["leds"]}
                if a["page"] is not None:
                    kw["id"] = case["pagers"][a["pager"]]["pages"][a["page"]]["id"]
                    kw["enable_callback"] = pagers[a["pager"]].enable_callback
                # one label per switch, shown by the first action of each page of the first pager
                has_label = False
                if not has_pager and a["pager"] == 0 and a["page"] is not None and a["page"] not in shown:
                    shown.add(a["page"])
                    has_label = True
                    kw["display"] = labels.get(i) or make_label(i)
                if a["kind"] == "custom":
                    act = CUSTOM([0xb1, a["n"], 5], text="c%d" % a["n"], color=tup(a["color"]), led_brightness=a["b"], **kw)
                elif a["kind"] == "rotate":
                    act = ROT(messages=[[0xb2, a["n"], x] for x in range(a["count"])], led_colors=[rot(a, x) for x in range(a["count"])], led_brightness=a["b"], texts=["r%d.%d" % (a["n"], x) for x in range(a["count"])], **kw)
                else:
                    m = M.get(name="b%d" % a["n"], set=build(("cc", a["n"], 0)), response=build(("cc", a["n"], 0)))
                    act = BIN(m, text="b%d" % a["n"], mode=PB.LATCH, color=tup(a["color"]), led_brightness_on=a["b"], led_brightness_off=a["off"], display_dim_factor_on=1, display_dim_factor_off=0.5, **kw)
                items.append({"t": a["kind"], "a": a, "leds": a["leds"], "label": has_label, "state": False, "pos": 0})
                acts.append(act)
            per_switch.append(items)
            real.append(acts)
        px = 0
        pixels, inputs = [], []
        for i, s in enumerate(case["switches"]):
            pixels.append(list(range(px, px + s["leds"])))
            px += s["leds"]
        for i in case["order"]:
            inputs.append({"actions": real[i], "pixels": pixels[i]})
        slot = {i: n for n, i in enumerate(case["order"])}
        app = App(w, inputs, splash=splash_callback(w, root(w, children)))

        def on_send(r):
            if r[0] == "cc":
                app.port.push(r)      # the device confirms on/off values

        app.port.on_send = on_send
        app.init()
        app.settle()

        # ------------------------------------------------ reference
        page = [0] * len(pagers)

        def enabled(it):
            if it["t"] == "pager":
                p = case["pagers"][it["k"]]
                return p["page"] is None or case["pagers"][0]["pages"][p["page"]]["id"] == case["pagers"][0]["pages"][page[0]]["id"]
            if it["t"] == "proxy":
                return True
            a = it["a"]
            return a["page"] is None or page[a["pager"]] == a["page"]

        def led(it):
            if it["t"] == "pager" or it["t"] == "proxy":
                p = case["pagers"][it["k"]]
                shown = it["page"] if it["t"] == "proxy" else (p["select"] if p["select"] is not None else page[it["k"]])
                b = (p["on"] if shown == page[it["k"]] else p["off"]) if it["t"] == "proxy" or p["select"] is not None else p["b"]
                c = p["pages"][shown]["color"] or (255, 255, 255)
            else:
                a = it["a"]
                c = rot(a, it["pos"]) if it["t"] == "rotate" else a["color"]
                b = a["off"] if it["t"] == "binary" and not it["state"] else a["b"]
            return tuple(int(x * b) for x in c)

        def check(op):
            leds = app.leds()
            for i, items in enumerate(per_switch):
                en = [it for it in items if it["leds"] and enabled(it)]
                for n, seg in division(len(pixels[i]), list(range(len(en)))).items():
                    for s in seg:
                        got = tuple(leds[pixels[i][s]])
                        expect(got == led(en[n]), lambda: f"LED {s} of switch {i} is {got} after {op}, expected {led(en[n])} of {en[n]} on pages {page}")
                for it in items:
                    if it.get("label") and enabled(it):
                        a = it["a"]
                        text = {"custom": "c%d" % a["n"], "binary": "b%d" % a["n"], "rotate": "r%d.%d" % (a["n"], it["pos"])}[it["t"]]
                        col = rot(a, it["pos"]) if it["t"] == "rotate" else tuple(int(x * (1 if it["t"] != "binary" or it["state"] else 0.5)) for x in a["color"])
                        expect(labels[i].text == text, lambda: f"label of switch {i} shows {labels[i].text!r} after {op}, expected {text!r} (pages {page})")
                        expect(tuple(labels[i].back_color) == col, lambda: f"label of switch {i} has colour {labels[i].back_color} after {op}, expected {col} (pages {page})")
            for k, p in enumerate(case["pagers"]):
                if p["label"] and enabled({"t": "pager", "k": k}):
                    q = p["pages"][page[k]]
                    expect(labels[("pager", k)].text == (q["text"] or ""), lambda: f"pager label shows {labels[('pager', k)].text!r}, expected {q['text']!r} after {op}")
                    expect(tuple(labels[("pager", k)].back_color) == tuple(q["color"] or (255, 255, 255)), lambda: f"pager label colour is {labels[('pager', k)].back_color}, expected {q['color']} after {op}")

        check("start")
        changes = sent = 0
        for op in case["ops"]:
            app.sent()
            exp = []
            if op[0] == "report":
                app.feed(("cc", op[1], op[2]))
                for items in per_switch:
                    for it in items:
                        if it["t"] == "binary" and it["a"]["n"] == op[1]:
                            it["state"] = op[2] == 1
            else:
                i = op[1]
                before = list(page)
                items = per_switch[i]
                ready = [enabled(it) for it in items]
                for it, e in zip(items, ready):
                    if not e or (it["t"] == "pager" and not enabled(it)):
                        continue
                    if it["t"] == "pager":
                        p = case["pagers"][it["k"]]
                        page[it["k"]] = p["select"] if p["select"] is not None else (page[it["k"]] + 1) % len(p["pages"])
                    elif it["t"] == "proxy":
                        page[it["k"]] = it["page"]
                    elif it["t"] == "custom":
                        exp.append(("raw", 0xb1, it["a"]["n"], 5))
                    elif it["t"] == "rotate":
                        exp.append(("raw", 0xb2, it["a"]["n"], it["pos"]))
                        it["pos"] = (it["pos"] + 1) % it["a"]["count"]
                    else:
                        it["state"] = not it["state"]
                        exp.append(("cc", it["a"]["n"], 1 if it["state"] else 0))
                if before != page and any(x["t"] == "pager" and case["pagers"][x["k"]]["page"] is not None for x in items) and len(items) > 1:
                    return     # a page change which enables or disables another pager on the same switch: not specified if that reacts to the same press
                app.tap(slot[i])
                app.tick()
                got = [m for m in app.sent() if m[0] != "sx"]
                expect(got == exp, f"{op} sent {got}, expected {exp} on pages {before} of {case['pagers']}")
                changes += before != page
                sent += sum(it.get("a", {}).get("page") is not None and e for it, e in zip(items, ready))
            check(op)
            app.settle()
            check(op)
        rec.nontrivial_if(changes and sent)
        rec.label("page changes", changes)
        rec.label("presses of paged actions", sent)


def rot(a, x):
    c = a["color"]
    return ((c[0] + 40 * x) % 256, c[1], c[2])


# ------------------------------------------------------------------ actions of another page
K = "clients.kemper.actions."
FOREIGN = [
    ["effect_button", "EFFECT_BUTTON", {"num": 1}], ["effect_button", "EFFECT_BUTTON", {"num": 3}],
    ["rig_select", "RIG_SELECT", {"rig": 2}], ["rig_select", "RIG_SELECT", {"rig": 1, "bank": 3, "rig_off": 4, "bank_off": 2}], ["rig_select", "RIG_SELECT", {"rig": 3, "rig_btn_morph": True}],
    ["rig_select", "RIG_SELECT", {"rig": 2, "rig_off": "auto"}], ["rig_select_and_morph_state", "RIG_SELECT_AND_MORPH_STATE", {"rig": 2}],
    ["bank_select", "BANK_SELECT", {"bank": 2}], ["bank_select", "BANK_SELECT", {"bank": 2, "preselect": True}], ["bank_up_down", "BANK_UP", {}], ["bank_up_down", "BANK_UP", {"preselect": True}],
    ["bank_up_down", "BANK_DOWN", {"preselect": True}], ["rig_up_down", "RIG_UP", {}], ["rig_up_down", "RIG_DOWN", {"keep_bank": False}],
    ["effect_state", "EFFECT_STATE", {"slot_id": 0}], ["effect_state", "EFFECT_STATE", {"slot_id": 6}], ["effect_state_extended_names", "EFFECT_STATE_EXT", {"slot_id": 1}],
    ["fixed_fx", "FIXED_EFFECT_STATE", {"slot": 2}], ["morph", "MORPH_BUTTON", {}], ["morph", "MORPH_DISPLAY", {}], ["tempo", "TAP_TEMPO", {"use_leds": True}], ["tempo", "SHOW_TEMPO", {}],
    ["rig_volume_boost", "RIG_VOLUME_BOOST", {"boost_volume": 0.8}], ["tuner", "TUNER_MODE", {}], ["looper", "LOOPER_STOP", {}],
]


MOMENTARY = {"LOOPER_STOP": lambda r: r[0] == "sx" and tuple(r[2][4:6]) == (0x7d, 89), "TAP_TEMPO": lambda r: r[:2] == ("cc", 30), "MORPH_BUTTON": lambda r: r[:2] == ("cc", 80)}


def foreign_cases():
    @st.composite
    def f(draw):
        switches = [{"leds": draw(st.integers(0, 3)), "color": draw(gens.color), "own": draw(gens.rarely(st.just(False), True, 6)), "foreign": draw(st.lists(st.sampled_from(FOREIGN), min_size=1, max_size=2))} for _ in range(draw(st.integers(1, 3)))]
        n = len(switches)
        ops = []
        for _ in range(draw(st.integers(2, 14))):
            k = draw(st.integers(0, 8))
            if k <= 2:
                ops.append(["page", draw(st.sampled_from([0, 225, 450]))])
            elif k <= 5:
                ops.append(["tap", draw(st.integers(1, n)), draw(gens.rarely(st.just(700), 0, 3))])
            elif k == 6:
                ops.append(["rig", draw(st.integers(0, 29))])
            elif k == 7:
                a = draw(st.sampled_from([[0x32, 3], [0x32, 0], [0x33, 0], [0x33, 3], [0x3c, 3], [0, 0x0b], [4, 0], [4, 1], [0x7c, 0], [5, 11]]))
                ops.append(["set", a, draw(st.one_of(st.integers(0, 1), gens.v14))])
            else:
                ops.append(["wait", draw(st.integers(1, 1500))])
        return {"switches": switches, "ops": ops, "bidi": draw(st.booleans()), "rig": draw(st.integers(0, 29)), "known": draw(gens.rarely(st.just(False), True, 4))}
    return f()


def run_foreign(case, rec):
    with World() as w:
        Pager = w.get("clients.local.actions.pager", "PagerAction")
        CUSTOM = w.get("clients.local.actions.custom", "CUSTOM_MESSAGE")
        pager = Pager(pages=[{"id": 1}, {"id": 2}])
        labels, inputs, px = [], [{"actions": [pager], "pixels": []}], 0
        for i, s in enumerate(case["switches"]):
            lab = label(w, y=20 * i, h=18)
            labels.append(lab)
            acts = []
            if s["own"]:
                acts.append(CUSTOM([0xb1, i, 5], text="c%d" % i, color=tuple(s["color"]), led_brightness=1, display=lab, id=1, enable_callback=pager.enable_callback))
            for n, (mod, fn, kw) in enumerate(s["foreign"]):
                more = {} if n else {"display": lab}
                acts.append(w.get(K + mod, fn)(id=2, enable_callback=pager.enable_callback, **{**kw, **more}))
            inputs.append({"actions": acts, "pixels": list(range(px, px + s["leds"]))})
            px += s["leds"]
        app = App(w, inputs, protocol=w.get("clients.kemper", "KemperBidirectionalProtocol")(5) if case["bidi"] else None, splash=splash_callback(w, root(w, labels)))
        dev = Device(app, rig=case["rig"], bidirectional=case["bidi"], params={(4, 0): 120 * 64, (4, 1): 5000, (0, 11): 0, (5, 11): 0, (0x7c, 0): 0})
        app.init()
        app.settle()
        if case["known"]:
            dev.report_rig()
        page, changed = 0, 0

        def check(op):
            leds = app.leds()
            for i, s in enumerate(case["switches"]):
                if not s["own"]:
                    continue
                expect(labels[i].text == "c%d" % i and tuple(labels[i].back_color) == tuple(s["color"]),
                       lambda: f"label of switch {i + 1} shows {labels[i].text!r} in {labels[i].back_color} after {op} on page 1, expected 'c{i}' in {s['color']} (disabled: {s['foreign']})")
                for p in inputs[i + 1]["pixels"]:
                    expect(tuple(leds[p]) == tuple(s["color"]), lambda: f"LED {p} of switch {i + 1} is {leds[p]} after {op} on page 1, expected {s['color']} (disabled: {s['foreign']})")

        def look():
            return [(lab.text, tuple(lab.back_color)) if lab.back_color else (lab.text, None) for lab in labels], list(app.leds())

        before, back, quiet = None, 0, True

        def wait(op, ms):
            for _ in range(max(1, ms // 25)):
                dev.tick()
                app.tick(25)
                if page == 0:
                    check(op)

        app.settle()
        check("start")
        app.sent()
        for op in case["ops"]:
            n = len(dev.received)
            exp = []
            if op[0] == "page":
                blind = dev.preselected is not None or any(f[1] == "EFFECT_BUTTON" or f[1] == "TUNER_MODE" and not case["bidi"] for s in case["switches"] for f in s["foreign"])
                if page == 1:
                    before = None if not quiet or blind else look()
                app.tap(0)
                page = 1 - page
                quiet = op[1] >= 450
            elif op[0] == "tap":
                app.press(op[1])
                if op[2]:
                    wait(op, op[2])
                app.release(op[1])
                if case["switches"][op[1] - 1]["own"]:
                    exp = [("raw", 0xb1, op[1] - 1, 5)]
                changed += page == 1
            elif op[0] == "rig":
                dev.load(op[1])
                changed += page == 0
                before = None
            elif op[0] == "set":
                dev.set(*op[1], op[2])
                before = None
                if op[1] == [0x7c, 0]:
                    dev.report(*op[1])
                changed += page == 0
            else:
                wait(op, op[1])
            if page == 0:
                check(op)
            wait(op, 450 if op[0] != "page" else op[1])
            if op[0] == "page" and page == 1 and before is not None and quiet:
                now = look()
                px = [p for s, inp in zip(case["switches"], inputs[1:]) for p in inp["pixels"]]
                expect(now[0] == before[0], lambda: f"labels show {now[0]} after returning to page 2, before it was {before[0]} ({case['switches']})")
                for p in px:
                    expect(all(abs(x - y) <= 1 for x, y in zip(now[1][p], before[1][p])), lambda: f"LED {p} is {now[1][p]} after returning to page 2, before it was {before[1][p]} ({case['switches']})")
                back += 1
            if op[0] != "page":
                quiet = True
            if page == 1 and op[0] == "tap":
                for mod, fn, kw in case["switches"][op[1] - 1]["foreign"]:
                    if fn in MOMENTARY:
                        got = [r[2] if r[0] == "cc" else r[2][7] for r in dev.received[n:] if MOMENTARY[fn](r)]
                        times = sum(x[1] == fn for x in case["switches"][op[1] - 1]["foreign"])
                        expect(got == [1] * times + [0] * times, lambda: f"{op} of {fn} on page 2 sent values {got}, expected on at press and off at release")
            if page == 0:
                got = dev.received[n:]
                expect(op[0] == "page" or got == exp, lambda: f"{op} on page 1 sent {got}, expected {exp}")
        rec.nontrivial_if(changed and any(x[0] == "page" for x in case["ops"]))
        rec.label("returns to the page of the functions without a change", back)


TESTS = [Test("paging", cases, run, quick=2500, thorough=40000), Test("foreign", foreign_cases, run_foreign, quick=900, thorough=15000)]
