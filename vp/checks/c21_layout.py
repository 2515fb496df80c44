from hypothesis import strategies as st
from ..kit import Test
from ..world import World
from ..app import expect
from .. import gens

ID = "C21"
SCALE = 2
RULE = ("Sequences of layout operations on a shared area (cut off, look at or move parts; amounts may be fractions) compared with a reference and with the set of pixels covered; "
        "trees of split containers built by constructor and add() in any order, with empty places. "
        "Non-trivial: at least three operations of which one removes something, or a container tree with at least two levels or three children.")


def cases():
    amount = lambda top: st.one_of(st.integers(0, max(0, int(top))), st.floats(0, max(0, int(top)), allow_nan=False, width=32), st.integers(0, 100), st.sampled_from([0, 1, 0.5, 2.999]))

    @st.composite
    def f(draw):
        ops = []
        for _ in range(draw(st.integers(1, 10))):
            k = draw(st.sampled_from(["remove_from_top", "remove_from_bottom", "remove_from_left", "remove_from_right", "top", "bottom", "left", "right", "translated", "translate", "with_position", "clone"]))
            if k in ("translated", "translate", "with_position"):
                n = st.one_of(st.integers(-500, 500), st.floats(-500, 500, allow_nan=False, width=32))
                ops.append([k, draw(n), draw(n)])
            elif k == "clone":
                ops.append([k])
            else:
                ops.append([k, draw(amount(300))])
        return {"area": [draw(st.integers(-100, 300)), draw(st.integers(-100, 300)), draw(st.integers(0, 400)), draw(st.integers(0, 400))], "ops": ops,
                "follow": draw(st.lists(st.booleans(), min_size=10, max_size=10))}
    return f()


def rect(b):
    for v in (b.x, b.y, b.width, b.height):
        expect(isinstance(v, int), f"{v!r} is not an integer pixel position")
    return (b.x, b.y, b.width, b.height)


def run(case, rec):
    with World() as w:
        layout = w.imp("ui.layout")
        B = w.get("ui.ui", "DisplayBounds")
        cur = B(*case["area"])
        removed = used = 0
        for op, follow in zip(case["ops"], case["follow"]):
            k = op[0]
            x, y, ww, h = before = rect(cur)
            if k == "clone":
                r = cur.clone()
                expect(r is not cur and rect(r) == before and r == cur, f"clone of {before} is {rect(r)}")
                ret = r
            elif k in ("translate", "translated", "with_position"):
                dx, dy = int(op[1]), int(op[2])
                ret = getattr(layout, k)(cur, op[1], op[2])
                want = (dx, dy, ww, h) if k == "with_position" else (x + dx, y + dy, ww, h)
                if k == "translate":
                    expect(rect(cur) == want, f"{k}{tuple(op[1:])} made {rect(cur)} of {before}")
                    ret = cur
                else:
                    expect(rect(ret) == want, f"{k}{tuple(op[1:])} of {before} returned {rect(ret)}")
                    expect(rect(cur) == before, f"{k} changed its argument from {before} to {rect(cur)}")
            else:
                side = k.split("_")[-1]
                n = int(op[1])
                if n > (h if side in ("top", "bottom") else ww):
                    continue
                used += 1
                ret = getattr(layout, k)(cur, op[1])
                expect(ret is not cur, f"{k} returned its argument")
                part = {"top": (x, y, ww, n), "bottom": (x, y + h - n, ww, n), "left": (x, y, n, h), "right": (x + ww - n, y, n, h)}[side]
                rest = {"top": (x, y + n, ww, h - n), "bottom": (x, y, ww, h - n), "left": (x + n, y, ww - n, h), "right": (x, y, ww - n, h)}[side]
                expect(rect(ret) == part, f"{k}({op[1]}) of {before} returned {rect(ret)}, expected {part}")
                if k.startswith("remove"):
                    removed += n > 0
                    expect(rect(cur) == rest, f"{k}({op[1]}) left {rect(cur)} of {before}, expected {rest}")
                else:
                    expect(rect(cur) == before, f"{k} changed its argument from {before} to {rect(cur)}")
            if follow:
                cur = ret
        rec.nontrivial_if(used >= 3 and removed)
        rec.label("removed", removed)


def trees():
    def node(depth):
        leaf = st.just({"leaf": 1})
        if depth == 0:
            return leaf

        @st.composite
        def f(draw):
            n = draw(st.integers(0, 6))
            return {"dir": draw(st.integers(0, 1)), "ctor": draw(st.integers(0, n)),
                    "children": [draw(st.one_of(leaf, leaf, st.none(), node(depth - 1))) for _ in range(n)]}
        return f()

    @st.composite
    def g(draw):
        return {"area": [draw(st.integers(0, 100)), draw(st.integers(0, 100)), draw(st.integers(0, 300)), draw(st.integers(0, 300))], "tree": draw(node(3)), "late": draw(st.booleans())}
    return g()


def run_tree(case, rec):
    with World() as w:
        S = w.get("ui.DisplaySplitContainer", "DisplaySplitContainer")
        El = w.get("ui.ui", "DisplayElement")
        B = w.get("ui.ui", "DisplayBounds")
        pending = []

        def make(t, bounds):
            if t is None:
                return None
            if "leaf" in t:
                return El(bounds=B(7, 7, 7, 7))
            kids = [make(c, B(3, 3, 3, 3)) for c in t["children"]]
            c = S(direction=S.VERTICAL if t["dir"] else S.HORIZONTAL, bounds=bounds, children=kids[:t["ctor"]] or None)
            for k in kids[t["ctor"]:]:
                if case["late"] and bounds is not None:
                    pending.append((c, k))
                else:
                    c.add(k)
            return c

        top = make(case["tree"], B(*case["area"]))
        for c, k in pending:
            c.add(k)
        count = [0]

        def check(t, el, depth):
            kids = [(c, e) for c, e in zip(t["children"], el.children or []) if c is not None]
            expect(len(el.children or []) == len(t["children"]), f"container has {len(el.children or [])} children, {len(t['children'])} were added")
            if not kids:
                return depth
            x, y, ww, h = rect(el.bounds)
            pos, space = (y, h) if t["dir"] else (x, ww)
            first = rect(kids[0][1].bounds)
            size = first[3] if t["dir"] else first[2]
            n = len(kids)
            for i, (c, e) in enumerate(kids):
                r = rect(e.bounds)
                want = (x, pos + i * size, ww, size) if t["dir"] else (pos + i * size, y, size, h)
                expect(r == want, f"child {i} of {n} in {(x, y, ww, h)} got the area {r}, expected {want}")
            expect(space - n < size * n <= space, f"{n} children of {size} pixels in a container of {space}")
            count[0] = max(count[0], n)
            return max([depth] + [check(c, e, depth + 1) for c, e in kids if "leaf" not in c])

        if "leaf" in case["tree"]:
            return
        expect(rect(top.bounds) == tuple(case["area"]), f"container has the area {rect(top.bounds)} instead of {case['area']}")
        d = check(case["tree"], top, 1)
        rec.nontrivial_if(d > 1 or count[0] > 2)


TESTS = [Test("areas", cases, run, quick=3000, thorough=150000), Test("containers", trees, run_tree, quick=2000, thorough=60000)]
