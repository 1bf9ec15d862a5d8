"""The rule library's texts, grounded and solved on small boards, against independent evaluators (bounded).

The deductive part proves which text every library function returns; this part decides, on all assignments of small boards,
that the text means what the property says.  Each case is (function, case id, thunk -> None or description of a difference).
"""
import itertools
from collections import deque

from .common import *

CMP = {"eq": lambda a, b: a == b, "ge": lambda a, b: a >= b, "gt": lambda a, b: a > b, "le": lambda a, b: a <= b, "lt": lambda a, b: a < b, "ne": lambda a, b: a != b}
OPP = {"l": "r", "r": "l", "u": "d", "d": "u"}
STEP = {"l": (0, -1), "r": (0, 1), "u": (-1, 0), "d": (1, 0)}


def solve(text, show):
    from pyvc import concrete

    try:
        return concrete.guarded(lambda: _solve(text, show), 60)
    except concrete.TooLong as e:
        return f"clingo: {e}"


def _solve(text, show):
    """All answers as frozensets of shown atoms (projected), or a string with clingo's complaint."""
    from clingo.control import Control

    err, out = [], set()
    try:
        ctl = Control(["0", "--project=show"], logger=lambda c, m: err.append(m))
        ctl.add("base", [], text + "\n#show.\n" + "\n".join(f"#show {s}." for s in show))
        ctl.ground([("base", [])])

        def keep(m):
            out.add(frozenset((s.name, tuple(a.number if a.type.name == "Number" else a.string if a.type.name == "String" else str(a) for a in s.arguments)) for s in m.symbols(shown=True)))

        ctl.solve(on_model=keep)
    except RuntimeError as e:
        return "clingo: " + (err or [str(e)])[0]
    return out


def cells(h, w):
    return [(r, c) for r in range(h) for c in range(w)]


def subsets(xs):
    xs = list(xs)
    for k in range(1 << len(xs)):
        yield frozenset(x for i, x in enumerate(xs) if k >> i & 1)


def steps(kind):
    o = [(0, 1), (1, 0), (0, -1), (-1, 0)]
    x = [(1, 1), (1, -1), (-1, 1), (-1, -1)]
    return {4: o, "x": x, 8: o + x}[kind]


def near(p, kind):
    return [(p[0] + a, p[1] + b) for a, b in steps(kind)]


def component(p, s, kind):
    seen, q = {p}, deque([p])
    while q:
        for n in near(q.popleft(), kind):
            if n in s and n not in seen:
                seen.add(n)
                q.append(n)
    return seen


def components(s, kind):
    out, left = [], set(s)
    while left:
        k = component(next(iter(left)), left, kind)
        out.append(k)
        left -= k
    return out


def diff(got, want, what="assignment"):
    """None or a description of one element of the symmetric difference."""
    if isinstance(got, str):
        return {"what": got}
    for k, x in (("accepted although it must not be", got - want), ("not accepted although it must be", want - got)):
        if x:
            y = min(x, key=lambda z: (len(z), sorted(map(str, z))))
            return {"what": f"{what} {k}", "example": sorted(map(str, y))}
    return None


def colourings(h, w, frag, ok, color="black", base="", free=True):
    """Compare the colourings `frag` admits on an h x w board with the evaluator `ok(set of coloured cells)`."""
    atom = color.removeprefix("not ")
    neg = color != atom
    text = f"grid(0..{h - 1}, 0..{w - 1}).\n{{ {atom}(R, C) }} :- grid(R, C).\n" + base + "\n" + frag
    got = solve(text, [f"{atom}/2"])
    if isinstance(got, str):
        return {"what": got, "program": text}
    got = {frozenset(a for _, a in m) for m in got}
    every = set(cells(h, w))
    want = {s for s in subsets(cells(h, w)) if ok(frozenset(every - s) if neg else s)}
    d = diff(got, want, f"colouring of a {h}x{w} board")
    if d:
        d["program"] = text
    return d


TARGETS = [0, 1, 2, 3, ("eq", 2), ("ge", 2), ("gt", 1), ("le", 1), ("lt", 2), ("ne", 1), ("gt", 0), ("ge", 5)]


def meets(t, n):
    return n == t if isinstance(t, int) else CMP[t[0]](n, t[1])


# ------------------------------------------------------------------------------------------------ C11
def c11():
    from noqx.rule import common as C
    from noqx.rule import neighbor as NB
    from noqx.rule import variety as V

    COLS = ("black", "not black")
    for t in TARGETS:
        for col in COLS:
            yield "common.count", f"grid {t} {col}", lambda t=t, col=col: colourings(2, 3, C.count(t, color=col, _type="grid"), lambda s: meets(t, len(s)), col) if col == "black" else None
            for i in (0, 1):
                yield "common.count", f"row {i} {t} {col}", lambda t=t, col=col, i=i: colourings(2, 3, C.count(t, color=col, _type="row", _id=i), lambda s: meets(t, sum(r == i for r, _ in s)), col) if col == "black" else None
            for i in (0, 2):
                yield "common.count", f"col {i} {t} {col}", lambda t=t, col=col, i=i: colourings(2, 3, C.count(t, color=col, _type="col", _id=i), lambda s: meets(t, sum(c == i for _, c in s)), col) if col == "black" else None
            room = {(0, 0), (0, 1), (1, 1)}
            facts = "".join(f"area(1, {r}, {c}). " for r, c in room) + "".join(f"area(0, {r}, {c}). " for r, c in set(cells(2, 3)) - room)
            yield "common.count", f"area {t} {col}", lambda t=t, col=col, room=room, facts=facts: colourings(2, 3, C.count(t, color=col, _type="area", _id=1), lambda s: meets(t, len(s & room)), col, facts)
        yield "common.count", f"every row {t}", lambda t=t: colourings(2, 3, C.count(t, _type="row"), lambda s: all(meets(t, sum(r == i for r, _ in s)) for i in range(2)))
        yield "common.count", f"every col {t}", lambda t=t: colourings(2, 3, C.count(t, _type="col"), lambda s: all(meets(t, sum(c == i for _, c in s)) for i in range(3)))

    def numbers(frag, ok, h, w, top, base=""):
        text = f"grid(0..{h - 1}, 0..{w - 1}).\n{{ number(R, C, 1..{top}) }} = 1 :- grid(R, C).\n" + base + "\n" + frag
        got = solve(text, ["number/3"])
        if isinstance(got, str):
            return {"what": got, "program": text}
        got = {frozenset(a for _, a in m) for m in got}
        want = set()
        for vs in itertools.product(range(1, top + 1), repeat=h * w):
            m = dict(zip(cells(h, w), vs))
            if ok(m):
                want.add(frozenset((*k, v) for k, v in m.items()))
        d = diff(got, want, f"numbering of a {h}x{w} board")
        return d and {**d, "program": text}

    def distinct(xs):
        xs = list(xs)
        return len(set(xs)) == len(xs)

    rowcol = C.unique_num(color="grid", _type="row") + C.unique_num(color="grid", _type="col")
    yield "common.unique_num", "rows and columns", lambda: numbers(rowcol, lambda m: all(distinct(m[r, c] for c in range(3)) for r in range(2)) and all(distinct(m[r, c] for r in range(2)) for c in range(3)), 2, 3, 3)
    room = {(0, 0), (0, 1), (1, 1)}
    facts = "".join(f"area({int(p in room)}, {p[0]}, {p[1]}). " for p in cells(2, 3))
    yield "common.unique_num", "areas", lambda: numbers(C.unique_num(color="grid", _type="area"), lambda m: distinct(v for k, v in m.items() if k in room) and distinct(v for k, v in m.items() if k not in room), 2, 3, 3, facts)
    gray = {(0, 0), (0, 2), (1, 1), (1, 2)}
    gf = "".join(f"gray({r}, {c}). " for r, c in gray)
    for kind, key in (("row", 1), ("col", 0)):
        yield "common.unique_num", f"coloured {kind}", lambda kind=kind, key=key: numbers(C.unique_num(color="gray", _type=kind), lambda m: all(distinct(v for k, v in m.items() if k in gray and k[key] == i) for i in range(3)), 2, 3, 3, gf)
    for kind in (4, "x", 8):
        yield "neighbor.avoid_num_adjacent", f"{kind}", lambda kind=kind: numbers(NB.avoid_num_adjacent(kind), lambda m: all(m[p] != m.get(q) for p in m for q in near(p, kind)), 2, 3, 2, NB.adjacent(kind))

    # fill_num: every subset of 0..8, every kind
    def fill(sub, typ, color):
        a = "grid(0, 0). area(7, 0, 0)." + ("" if color is None else f"#show {color}/2.")
        text = a + C.fill_num(sub, _type=typ, **({"_id": 7} if typ == "area" else {}), **({"color": color} if color else {})) + "#show number/3."
        got = solve(text, ["number/3"] + ([f"{color}/2"] if color else []))
        want = {frozenset({("number", (0, 0, n))}) for n in sub} | ({frozenset({(color, (0, 0))})} if color else set())
        d = diff(got, want, f"cell filled from {sorted(sub)} ({typ}, {color})")
        return d and {**d, "program": text}

    def fills(part):
        for k in range(part, 512, 8):
            sub = [i for i in range(9) if k >> i & 1]
            for typ in ("grid", "area"):
                for color in (None, "gray"):
                    if not sub:
                        continue
                    d = fill(sub, typ, color)
                    if d:
                        return d
        return None

    for part in range(8):
        yield "common.fill_num", f"subsets of 0..8 (part {part})", lambda part=part: fills(part)
    for lo, hi in ((0, 0), (1, 12), (5, 5), (98, 103), (0, 40)):
        yield "common.fill_num", f"{lo}..{hi}", lambda lo=lo, hi=hi: fill(list(range(lo, hi + 1)), "grid", None)
    yield "common.fill_num", "unsorted with repeats", lambda: fill([5, 3, 3, 4, 9], "grid", None)
    for h, w in ((1, 1), (2, 4), (3, 2)):
        yield "common.grid", f"{h}x{w}", lambda h=h, w=w: diff(solve(C.grid(h, w), ["grid/2"]), {frozenset(("grid", p) for p in cells(h, w))}, "grid")
        yield "common.grid", f"{h}x{w} with a hole", lambda h=h, w=w: diff(solve(f"hole({h - 1}, {w - 1})." + C.grid(h, w, with_holes=True), ["grid/2"]), {frozenset(("grid", p) for p in cells(h, w)[:-1])}, "grid")

        def edges(h=h, w=w):
            inner = [("edge_left", (r, c)) for r in range(h) for c in range(1, w)] + [("edge_top", (r, c)) for r in range(1, h) for c in range(w)]
            outer = frozenset({("edge_left", (r, c)) for r in range(h) for c in (0, w)} | {("edge_top", (r, c)) for r in (0, h) for c in range(w)})
            got = solve(C.grid(h, w) + C.edge(h, w), ["edge_left/2", "edge_top/2"])
            return diff(got, {outer | s for s in subsets(inner)}, "set of edges")

        if (h, w) != (2, 4):
            yield "common.edge", f"{h}x{w}", edges
    yield "common.shade_cc", "two colours", lambda: diff(solve("grid(0, 0..1)." + C.shade_cc(["a", "b"]), ["a/2", "b/2"]), {frozenset({(x, (0, 0)), (y, (0, 1))}) for x in "ab" for y in "ab"})
    yield "common.invert_c", "white", lambda: diff(solve("grid(0, 0..1). {black(R, C)} :- grid(R, C)." + C.invert_c(), ["black/2", "white/2"]), {frozenset({("black" if x else "white", (0, 0)), ("black" if y else "white", (0, 1))}) for x in (0, 1) for y in (0, 1)})
    # neighbourhood counts and arrows
    for t in TARGETS:
        for kind in (4, "x", 8):
            yield "neighbor.count_adjacent", f"{t} {kind}", lambda t=t, kind=kind: colourings(3, 3, NB.count_adjacent(t, (1, 1), "black", kind), lambda s: meets(t, sum(n in s for n in near((1, 1), kind))), base=NB.adjacent(kind))
        yield "neighbor.count_adjacent", f"{t} corner", lambda t=t: colourings(2, 3, NB.count_adjacent(t, (0, 2), "black", 4), lambda s: meets(t, sum(n in s for n in near((0, 2), 4))), base=NB.adjacent(4))

        def cedges(t=t):
            got = solve("{edge_left(1..2, 1..3); edge_top(1..3, 1..2)}." + NB.count_adjacent_edges(t, (1, 2)), ["edge_left/2", "edge_top/2"])
            if isinstance(got, str):
                return {"what": got}
            mine = {("edge_left", (1, 2)), ("edge_left", (1, 3)), ("edge_top", (1, 2)), ("edge_top", (2, 2))}
            allE = [("edge_left", (r, c)) for r in (1, 2) for c in (1, 2, 3)] + [("edge_top", (r, c)) for r in (1, 2, 3) for c in (1, 2)]
            return diff(got, {s for s in subsets(allE) if meets(t, len(s & mine))}, "set of edges")

        yield "neighbor.count_adjacent_edges", f"{t}", cedges
    for d, (dr, dc) in enumerate(((-1, 0), (0, -1), (0, 1), (1, 0))):
        for t in (0, 1, 2):
            for unshade in (True, False):
                def yc(d=d, dr=dr, dc=dc, t=t, unshade=unshade):
                    def ok(s):
                        n = sum((1 + k * dr, 1 + k * dc) in s for k in (1, 2, 3))
                        return n == t or (not unshade and (1, 1) in s)
                    return colourings(3, 4, V.yaji_count(t, (1, 1), d, color="black", unshade_clue=unshade), ok)

                yield "variety.yaji_count", f"direction {d} target {t} {unshade}", yc


# ------------------------------------------------------------------------------------------------ C12
def c12():
    from noqx.puzzle import Direction, Point
    from noqx.rule import common as C
    from noqx.rule import neighbor as NB
    from noqx.rule import reachable as RC
    from noqx.rule import variety as V

    for kind in (4, "x", 8):
        for h, w in ((1, 1), (3, 2), (2, 4)):
            for me in (False, True):
                want = frozenset((f"adj_{kind}", (*p, *q)) for p in cells(h, w) for q in near(p, kind) if 0 <= q[0] < h and 0 <= q[1] < w) | (frozenset((f"adj_{kind}", (*p, *p)) for p in cells(h, w)) if me else frozenset())
                yield "neighbor.adjacent", f"{kind} {h}x{w} {me}", lambda kind=kind, h=h, w=w, me=me, want=want: diff(solve(C.grid(h, w) + NB.adjacent(kind, me), [f"adj_{kind}/4"]), {want}, "adjacency")

    def adj_edge():
        got = solve("grid(0..1, 0..1). {edge_left(0..1, 1); edge_top(1, 0..1)}." + NB.adjacent("edge"), ["adj_edge/4", "edge_left/2", "edge_top/2"])
        want = set()
        for s in subsets([("edge_left", (0, 1)), ("edge_left", (1, 1)), ("edge_top", (1, 0)), ("edge_top", (1, 1))]):
            a = set(s)
            for (n, (r, c)) in [("edge_left", (0, 1)), ("edge_left", (1, 1)), ("edge_top", (1, 0)), ("edge_top", (1, 1))]:
                if (n, (r, c)) not in s:
                    p = (r, c - 1) if n == "edge_left" else (r - 1, c)
                    a |= {("adj_edge", (*p, r, c)), ("adj_edge", (r, c, *p))}
            want.add(frozenset(a))
        return diff(got, want, "adjacency over edges")

    yield "neighbor.adjacent", "edge", adj_edge

    def adj_loop(kind):
        h, w = 2, 2
        every = [(r, c, d) for r, c in cells(h, w) for d in "lurd"]
        names = ["grid_direction"] if kind == "loop" else ["grid_in", "grid_out"]
        rnd_sets = [s for s in subsets(every[:]) if len(s) <= 2]
        for s in rnd_sets:
            for name in names:
                facts = "".join(f'{name}({r}, {c}, "{d}"). ' for r, c, d in s) + "".join(f"#defined {n}/3. " for n in names)
                want = set()
                for r, c, d in s:
                    if d in "lu":
                        q = (r + STEP[d][0], c + STEP[d][1])
                        if 0 <= q[0] and 0 <= q[1]:
                            want |= {(f"adj_{kind}", (r, c, *q)), (f"adj_{kind}", (*q, r, c))}
                x = diff(solve(facts + C.grid(h, w) + NB.adjacent(kind), [f"adj_{kind}/4"]), {frozenset(want)}, f"adjacency for {facts}")
                if x:
                    return x
        return None

    yield "neighbor.adjacent", "loop", lambda: adj_loop("loop")
    yield "neighbor.adjacent", "loop_directed", lambda: adj_loop("loop_directed")

    for kind in (4, "x", 8):
        yield "neighbor.avoid_adjacent_color", f"{kind}", lambda kind=kind: colourings(2, 4, NB.avoid_adjacent_color("black", kind), lambda s: not any(n in s for p in s for n in near(p, kind)), base=NB.adjacent(kind))
        yield "variety.nori_adjacent", f"{kind}", lambda kind=kind: colourings(2, 4, V.nori_adjacent("black", kind), lambda s: all(sum(n in s for n in near(p, kind)) == 1 for p in s), base=NB.adjacent(kind))
        for col in ("black", "not black"):
            for h, w in ((3, 3), (2, 4), (1, 5)):
                for size in (None, (h, w)):
                    yield "reachable.grid_color_connected", f"{kind} {col} {h}x{w} {size}", lambda kind=kind, col=col, h=h, w=w, size=size: colourings(h, w, RC.grid_color_connected(col, kind, size), lambda s: len(components(s, kind)) <= 1, col, NB.adjacent(kind))
            for h, w in ((3, 4), (4, 3), (1, 3)):
                def border(kind=kind, col=col, h=h, w=w):
                    rim = {p for p in cells(h, w) if p[0] in (0, h - 1) or p[1] in (0, w - 1)}
                    return colourings(h, w, RC.border_color_connected(h, w, col, kind), lambda s: all(k & rim for k in components(s, kind)), col, NB.adjacent(kind))

                yield "reachable.border_color_connected", f"{kind} {col} {h}x{w}", border
            room = {(0, 0), (0, 1), (1, 1), (1, 2), (0, 2)}

            def inroom(kind=kind, col=col):
                facts = "".join(f"area({int(p in room)}, {p[0]}, {p[1]}). " for p in cells(2, 4))
                return colourings(2, 4, RC.area_color_connected(col, kind), lambda s: all(len(components({p for p in s if (p in room) == b}, kind)) <= 1 for b in (True, False)), col, facts + NB.adjacent(kind))

            yield "reachable.area_color_connected", f"{kind} {col}", inroom
            for src in ((0, 0), (1, 1)):
                for t in (1, 2, 4, ("ge", 3), ("le", 2), ("ne", 2), ("gt", 3), ("lt", 3), ("eq", 3)):
                    def reach(kind=kind, col=col, src=src, t=t):
                        frag = RC.grid_src_color_connected(src, color=col, adj_type=kind) + "\n" + RC.count_reachable_src(t, src, color=col, adj_type=kind)
                        return colourings(2, 3, frag, lambda s: meets(t, len(component(src, s | {src}, kind))), col, NB.adjacent(kind))

                    yield "reachable.count_reachable_src", f"{kind} {col} {src} {t}", reach
        if kind != "x":
            for col in ("black", "not black"):
                def unknown(kind=kind, col=col):
                    a, b = (0, 0), (1, 3)
                    frag = RC.grid_src_color_connected(a, color=col, adj_type=kind) + "\n" + RC.grid_src_color_connected(b, color=col, adj_type=kind) + "\n" + RC.avoid_unknown_src(col, kind)
                    return colourings(2, 4, frag, lambda s: s <= component(a, s | {a}, kind) | component(b, s | {b}, kind), col, NB.adjacent(kind))

                yield "reachable.avoid_unknown_src", f"{kind} {col}", unknown

    def sources():
        # extra sources and excluded cells
        frag = RC.grid_src_color_connected((0, 0), include_cells=[(1, 2)], exclude_cells=[(0, 2)], color="black", adj_type=4) + "\n" + RC.count_reachable_src(4, (0, 0))

        def ok(s):
            t = s | {(0, 0), (1, 2)}
            k = component((0, 0), t, 4) | component((1, 2), t, 4)
            # only what is coloured is propagated to; sources count in any case
            seen = {(0, 0), (1, 2)}
            grow = True
            while grow:
                new = {n for p in seen for n in near(p, 4) if n in s} - seen
                grow = bool(new)
                seen |= new
            return len(seen) == 4 and (0, 2) not in seen and k >= seen

        return colourings(2, 3, frag, ok, base=NB.adjacent(4))

    yield "reachable.grid_src_color_connected", "extra and excluded cells", sources
    for col in ("black", "not black"):
        for src in ((0, 1), (1, 0), (2, 2)):
            def seen(s, src):
                out = {src}
                for a, b in steps(4):
                    p = (src[0] + a, src[1] + b)
                    while p in s:
                        out.add(p)
                        p = (p[0] + a, p[1] + b)
                return out

            for t in (1, 2, 3, ("ge", 3), ("lt", 3), ("ne", 4)):
                yield "reachable.bulb_src_color_connected", f"{col} {src} {t}", lambda col=col, src=src, t=t: colourings(3, 3, RC.bulb_src_color_connected(src, col, 4) + "\n" + RC.count_reachable_src(t, src, "bulb", col, 4), lambda s: meets(t, len(seen(s, src))), col, NB.adjacent(4))
                yield "reachable.count_rect_src", f"{col} {src} {t}", lambda col=col, src=src, t=t: colourings(3, 3, RC.bulb_src_color_connected(src, col, 4) + "\n" + RC.count_rect_src(t, src, col, 4), lambda s: meets(t, len({r for r, _ in seen(s, src)}) * len({c for _, c in seen(s, src)})), col, NB.adjacent(4))

    # regions over edges
    def region_answers(h, w, frag, ok):
        inner = [("edge_left", (r, c)) for r in range(h) for c in range(1, w)] + [("edge_top", (r, c)) for r in range(1, h) for c in range(w)]
        outer = frozenset({("edge_left", (r, c)) for r in range(h) for c in (0, w)} | {("edge_top", (r, c)) for r in (0, h) for c in range(w)})
        text = C.grid(h, w) + C.edge(h, w) + NB.adjacent("edge") + "\n" + frag
        got = solve(text, ["edge_left/2", "edge_top/2"])
        want = set()
        for s in subsets(inner):
            def link(p, q, s=s):
                if p[0] == q[0]:
                    return ("edge_left", max(p, q)) not in s
                return ("edge_top", max(p, q)) not in s

            comp = {}
            for p in cells(h, w):
                if p in comp:
                    continue
                k, qd = {p}, deque([p])
                while qd:
                    x = qd.popleft()
                    for n in near(x, 4):
                        if 0 <= n[0] < h and 0 <= n[1] < w and n not in k and link(x, n):
                            k.add(n)
                            qd.append(n)
                for x in k:
                    comp[x] = frozenset(k)
            if ok(s, comp, link):
                want.add(outer | s)
        d = diff(got, want, f"division of a {h}x{w} board")
        return d and {**d, "program": text}

    def clean(only=None):
        def ok(s, comp, link):
            return all(link(p, q) or comp[p] != comp[q] or (only is not None and comp[p] not in [comp[o] for o in only]) for p in comp for q in near(p, 4) if q in comp)
        return ok

    yield "reachable.grid_branch_color_connected", "edge", lambda: region_answers(2, 3, RC.grid_branch_color_connected(color=None, adj_type="edge"), clean())
    for src in ((0, 0), (1, 1)):
        yield "reachable.grid_src_color_connected", f"edge {src}", lambda src=src: region_answers(2, 3, RC.grid_src_color_connected(src, color=None, adj_type="edge"), clean([src]))
        for t in (1, 3, ("gt", 2), ("le", 4), ("ne", 2)):
            yield "reachable.count_reachable_src", f"edge {src} {t}", lambda src=src, t=t: region_answers(2, 3, RC.grid_src_color_connected(src, color=None, adj_type="edge") + "\n" + RC.count_reachable_src(t, src, color=None, adj_type="edge"), lambda s, comp, link: clean([src])(s, comp, link) and meets(t, len(comp[src])))

    def sight(src, comp, link):
        out = {src}
        for a, b in steps(4):
            p, q = src, (src[0] + a, src[1] + b)
            while q in comp and link(p, q):
                out.add(q)
                p, q = q, (q[0] + a, q[1] + b)
        return out

    for src in ((0, 0), (1, 1)):
        for t in (2, 3, ("ge", 3)):
            yield "reachable.bulb_src_color_connected", f"edge {src} {t}", lambda src=src, t=t: region_answers(2, 3, RC.bulb_src_color_connected(src, None, "edge") + "\n" + RC.count_reachable_src(t, src, "bulb", None, "edge"), lambda s, comp, link: meets(t, len(sight(src, comp, link))))
            yield "reachable.count_rect_src", f"edge {src} {t}", lambda src=src, t=t: region_answers(2, 3, RC.bulb_src_color_connected(src, None, "edge") + "\n" + RC.count_rect_src(t, src, None, "edge"), lambda s, comp, link: meets(t, len({r for r, _ in sight(src, comp, link)}) * len({c for _, c in sight(src, comp, link)})))
    yield "reachable.avoid_unknown_src", "edge", lambda: region_answers(2, 3, RC.grid_src_color_connected((0, 0), color=None, adj_type="edge") + RC.grid_src_color_connected((1, 2), color=None, adj_type="edge") + RC.avoid_unknown_src(color=None, adj_type="edge"), lambda s, comp, link: clean([(0, 0), (1, 2)])(s, comp, link) and all(comp[p] in (comp[0, 0], comp[1, 2]) for p in comp))

    def branch(kind, col):
        frag = RC.grid_branch_color_connected(color=col, adj_type=kind)
        tag = f"reachable_grid_branch_adj_{kind}_{col.replace(' ', '_')}"
        for s in subsets(cells(2, 3)):
            mine = s if col == "black" else frozenset(cells(2, 3)) - s
            want = frozenset((tag, (*p, *q)) for p in mine for q in component(p, mine, kind))
            x = diff(solve("#defined black/2. " + C.grid(2, 3) + NB.adjacent(kind) + frag + "".join(f"black({r}, {c})." for r, c in s), [f"{tag}/4"]), {want}, "reachability")
            if x:
                return x
        return None

    for kind in (4, 8, "x"):
        for col in ("black", "not black"):
            yield "reachable.grid_branch_color_connected", f"{kind} {col}", lambda kind=kind, col=col: branch(kind, col)

    def bits(kind, h, w, ids):
        rule, nbit = RC.num_binary_range(max(ids.values()))
        frag = rule + "\n" + "\n".join(RC.clue_bit(r, c, i, nbit) for (r, c), i in ids.items()) + "\n" + RC.grid_bit_color_connected("black", kind) + "\n" + RC.avoid_unknown_src_bit("black", kind)

        def ok(s):
            if not set(ids) <= s:
                return None
            return all(len({ids[p] for p in k if p in ids}) == 1 for k in components(s, kind))

        base = NB.adjacent(kind) + "".join(f"black({r}, {c})." for r, c in ids)
        return colourings(h, w, frag, lambda s: ok(s) is True, base=base)

    for kind in (4, 8):
        yield "reachable.grid_bit_color_connected", f"{kind}", lambda kind=kind: bits(kind, 2, 4, {(0, 0): 1, (1, 3): 2, (0, 3): 2})
        yield "reachable.grid_bit_color_connected", f"{kind} more", lambda kind=kind: bits(kind, 3, 3, {(0, 0): 1, (0, 2): 3, (2, 0): 3, (2, 2): 5})

    def cluebit():
        for nbit in range(1, 6):
            for i in range(1 << nbit):
                x = diff(solve("#defined clue_bit/3." + RC.clue_bit(1, 2, i, nbit), ["clue/2", "clue_bit/3"]), {frozenset({("clue", (1, 2))} | {("clue_bit", (1, 2, b)) for b in range(nbit) if i >> b & 1})}, f"bits of {i}")
                if x:
                    return x
        return None

    yield "reachable.clue_bit", "ids below 32", cluebit

    def brange():
        for n in list(range(1, 300)) + [2**k + d for k in range(9, 20) for d in (-1, 0, 1)]:
            rule, nbit = RC.num_binary_range(n)
            if nbit != n.bit_length():
                return {"what": f"num_binary_range({n}) gives {nbit} bits"}
            x = n < 300 and diff(solve(rule, ["bit_range/1"]), {frozenset(("bit_range", (b,)) for b in range(nbit))}, f"bits for {n}")
            if x:
                return x
        return None

    yield "reachable.num_binary_range", "1..300 and around powers of two", brange

    def areas():
        h, w = 2, 3
        rnd = [{(0, 0): 0, (0, 1): 0, (0, 2): 1, (1, 0): 2, (1, 1): 1, (1, 2): 1}, {p: p[1] for p in cells(h, w)}, {p: 0 for p in cells(h, w)}]
        for m in rnd:
            facts = "".join(f"area({a}, {r}, {c}). " for (r, c), a in m.items()) + "#defined gray/2."
            for kind in (4, 8, "x"):
                for s in subsets(cells(h, w)):
                    gf = "".join(f"gray({r}, {c}). " for r, c in s)
                    want = frozenset((f"area_adj_{kind}_gray", (m[p], m[q])) for p in s for q in near(p, kind) if q in s and m[p] < m[q])
                    x = diff(solve(facts + gf + C.grid(h, w) + NB.adjacent(kind) + NB.area_adjacent(kind, "gray"), [f"area_adj_{kind}_gray/2"]), {want}, "adjacent areas")
                    if x:
                        return x
                want = frozenset((f"area_adj_{kind}", (m[p], m[q])) for p in m for q in near(p, kind) if q in m and m[p] < m[q])
                x = diff(solve(facts + C.grid(h, w) + NB.adjacent(kind) + NB.area_adjacent(kind), [f"area_adj_{kind}/2"]), {want}, "adjacent areas")
                if x:
                    return x
        return None

    yield "neighbor.area_adjacent", "three divisions", areas
    room = {(0, 0), (0, 1), (1, 1)}
    facts = "".join(f"area({int(p in room)}, {p[0]}, {p[1]}). " for p in cells(2, 3))
    yield "neighbor.area_same_color", "two rooms", lambda: colourings(2, 3, NB.area_same_color("black"), lambda s: s & room in (room, set()) and len(s - room) in (0, 3), base=facts)

    def borders():
        h, w = 2, 3
        lines = [Point(r, c, Direction.LEFT) for r in range(h) for c in range(w + 1)] + [Point(r, c, Direction.TOP) for r in range(h + 1) for c in range(w)]
        import random

        rnd = random.Random(SEED)
        for _ in range(400):
            e = {p: rnd.random() < 0.8 for p in lines if rnd.random() < 0.6}
            ar = [p for p in cells(h, w) if rnd.random() < 0.6]
            side = {"l": lambda r, c: Point(r, c, Direction.LEFT), "r": lambda r, c: Point(r, c + 1, Direction.LEFT), "u": lambda r, c: Point(r, c, Direction.TOP), "d": lambda r, c: Point(r + 1, c, Direction.TOP)}
            want = frozenset(("area_border", (4, r, c, d)) for r, c in ar for d in side if e.get(side[d](r, c)) is True)
            x = diff(solve(NB.area_border(4, ar, e), ["area_border/4"]), {want}, f"border of {ar} with edges {[(p.r, p.c, p.d.name, v) for p, v in e.items()]}")
            if x:
                return x
        return None

    yield "neighbor.area_border", "400 random rooms and edge sets on 2x3", borders


# ------------------------------------------------------------------------------------------------ C13
def grid_edges(h, w):
    return [((r, c), "r", (r, c + 1)) for r in range(h) for c in range(w - 1)] + [((r, c), "d", (r + 1, c)) for r in range(h - 1) for c in range(w)]


def drawings(h, w):
    """All sets of unit lines of the board: (dirs per cell, lines)."""
    es = grid_edges(h, w)
    for s in subsets(range(len(es))):
        dirs = {p: set() for p in cells(h, w)}
        for i in s:
            a, d, b = es[i]
            dirs[a].add(d)
            dirs[b].add(OPP[d])
        yield dirs


def c13():
    from noqx.rule import common as C
    from noqx.rule import loop as L

    def base(h, w, directed=False):
        return C.grid(h, w) + "\n" + C.direction("lurd") + "\n" + C.shade_c("white") + "\n" + C.fill_path("white", directed) + "\n"

    def atoms(dirs):
        return frozenset(("grid_direction", (*p, d)) for p, ds in dirs.items() for d in ds)

    def loops(h, w, frag, ok, extra=""):
        text = base(h, w) + extra + frag
        got = solve(text, ["grid_direction/3", "white/2"])
        if isinstance(got, str):
            return {"what": got, "program": text}
        want = {atoms(ds) | {("white", p) for p in ds if ds[p]} for ds in drawings(h, w) if ok(ds)}
        d = diff(got, want, f"drawing on a {h}x{w} board")
        return d and {**d, "program": text}

    for h, w in ((2, 2), (3, 3), (2, 4)):
        yield "loop.single_loop", f"{h}x{w}", lambda h=h, w=w: loops(h, w, L.single_loop("white"), lambda ds: all(len(x) in (0, 2) for x in ds.values()))
        yield "loop.intersect_loop", f"{h}x{w}", lambda h=h, w=w: loops(h, w, L.intersect_loop("white"), lambda ds: all(len(x) in (0, 2, 4) for x in ds.values()))
        for ends in ([(0, 0), (h - 1, w - 1)], [(0, 1), (1, 0), (0, 0), (1, 1)], []):
            ef = "#defined dead_end/2. " + "".join(f"dead_end({r}, {c}). " for r, c in ends)
            yield "loop.single_loop", f"{h}x{w} path {ends}", lambda h=h, w=w, ends=ends, ef=ef: loops(h, w, L.single_loop("white", path=True), lambda ds: all(len(x) == 1 if p in ends else len(x) in (0, 2) for p, x in ds.items()), ef)
            yield "loop.intersect_loop", f"{h}x{w} path {ends}", lambda h=h, w=w, ends=ends, ef=ef: loops(h, w, L.intersect_loop("white", path=True), lambda ds: all(len(x) == 1 if p in ends else len(x) in (0, 2, 4) for p, x in ds.items()), ef)

    def directed(h, w, path, starts=(), ends=()):
        es = grid_edges(h, w)
        ef = "".join(f"path_start({r}, {c}). " for r, c in starts) + "".join(f"path_end({r}, {c}). " for r, c in ends) + "#defined path_start/2. #defined path_end/2. "
        text = base(h, w, True) + ef + L.directed_loop("white", path)
        got = solve(text, ["grid_in/3", "grid_out/3", "white/2"])
        if isinstance(got, str):
            return {"what": got, "program": text}
        want = set()
        for vs in itertools.product((0, 1, 2), repeat=len(es)):
            gin, gout = {p: set() for p in cells(h, w)}, {p: set() for p in cells(h, w)}
            for v, (a, d, b) in zip(vs, es):
                if v == 1:
                    gout[a].add(d)
                    gin[b].add(OPP[d])
                elif v == 2:
                    gout[b].add(OPP[d])
                    gin[a].add(d)
            ok = True
            for p in gin:
                n = (len(gin[p]), len(gout[p]))
                ok &= n == (0, 1) if p in starts else n == (1, 0) if p in ends else n in ((0, 0), (1, 1))
            if ok:
                want.add(frozenset(("grid_in", (*p, d)) for p in gin for d in gin[p]) | frozenset(("grid_out", (*p, d)) for p in gout for d in gout[p]) | frozenset(("white", p) for p in gin if gin[p] or gout[p]))
        d = diff(got, want, f"directed drawing on a {h}x{w} board")
        return d and {**d, "program": text}

    for h, w in ((2, 2), (2, 3)):
        yield "loop.directed_loop", f"{h}x{w}", lambda h=h, w=w: directed(h, w, False)
        yield "loop.directed_loop", f"{h}x{w} path", lambda h=h, w=w: directed(h, w, True, [(0, 0)], [(h - 1, w - 1)])
        yield "loop.directed_loop", f"{h}x{w} two paths", lambda h=h, w=w: directed(h, w, True, [(0, 0), (0, 1)], [(1, 0), (1, 1)])

    def closed(h, w):
        return [ds for ds in drawings(h, w) if all(len(x) in (0, 2) for x in ds.values())]

    def separate(inside, outside):
        h, w = 3, 4
        ins, outs = [(1, 1)], [(0, 2), (2, 3)]
        facts = "".join(f"sheep({r}, {c}). " for r, c in ins) + "".join(f"wolf({r}, {c}). " for r, c in outs)
        # items are at corner points: below/right of the unit step (see the callers); outside: even crossings above
        def ok(ds):
            if any(len(x) not in (0, 2) for x in ds.values()):
                return False

            def out(p):
                return sum("r" in ds[q, p[1]] for q in range(p[0] + 1)) % 2 == 0

            return (not inside or not any(out(p) for p in ins)) and (not outside or all(out(p) for p in outs))

        return loops(h, w, L.separate_item_from_loop("sheep" if inside else "", "wolf" if outside else "") + L.single_loop("white"), ok, facts)

    for i in (0, 1):
        for o in (0, 1):
            yield "loop.separate_item_from_loop", f"{i}{o}", lambda i=i, o=o: separate(i, o)

    def passes(target):
        h, w = 3, 3
        room = {(0, 0), (0, 1), (1, 1)}
        bf = ""
        for r, c in room:
            for d, (a, b) in STEP.items():
                if (r + a, c + b) not in room:
                    bf += f'area_border(5, {r}, {c}, "{d}"). '
        bf += 'area_border(6, 2, 2, "l"). area_border(6, 2, 2, "u"). '

        def ok(ds):
            n = sum(1 for p in room for d in ds[p] if (p[0] + STEP[d][0], p[1] + STEP[d][1]) not in room)
            return all(len(x) in (0, 2) for x in ds.values()) and n == 2 * target

        return loops(h, w, L.count_area_pass(target, 5) + L.single_loop("white"), ok, bf)

    for t in (0, 1, 2):
        yield "loop.count_area_pass", f"{t}", lambda t=t: passes(t)

    def signs(h, w):
        for ds in closed(h, w):
            facts = C.grid(h, w) + "#defined white/2. #defined grid_direction/3. " + "".join(f'grid_direction({r}, {c}, "{d}"). ' for (r, c), x in ds.items() for d in x) + "".join(f"white({r}, {c}). " for (r, c), x in ds.items() if x)
            want = set()
            for p, x in ds.items():
                for s in ("lu", "ld", "ru", "rd", "lr", "ud"):
                    if set(s) <= x:
                        want.add(("loop_sign", (*p, s)))
                        want.add(("straight" if s in ("lr", "ud") else "turning", p))

                def end(p, d):
                    q = (p[0] + STEP[d][0], p[1] + STEP[d][1])
                    while {d, OPP[d]} <= ds.get(q, set()):
                        q = (q[0] + STEP[d][0], q[1] + STEP[d][1])
                    return q[0] if d in "ud" else q[1]

                if len(x) == 2:
                    if x == {"l", "r"}:
                        want.add(("segment", (*p, end(p, "l"), end(p, "r"), "H")))
                    elif x == {"u", "d"}:
                        want.add(("segment", (*p, end(p, "u"), end(p, "d"), "V")))
                    else:
                        v, z = next(iter(x & {"u", "d"})), next(iter(x & {"l", "r"}))
                        want.add(("segment", (*p, end(p, v), end(p, z), "T")))
            frag = "\n".join([L.loop_sign("white"), L.loop_straight("white"), L.loop_turning("white")] + [L.loop_segment(p) for p in cells(h, w)])
            x = diff(solve(facts + frag, ["loop_sign/3", "straight/2", "turning/2", "segment/5"]), {frozenset(want)}, f"signs and segments of {facts}")
            if x:
                return x
        return None

    yield "loop.loop_segment", "all loops on 3x4", lambda: signs(3, 4)
    yield "loop.loop_segment", "all loops on 4x3", lambda: signs(4, 3)

    def conv(directed, diagonal):
        names = {"top": ("r", 0), "left": ("d", 0)} if not diagonal else {"diag_down": ("dr", 0), "diag_up": ("ur", 1)}
        preds = ["grid_in", "grid_out"] if directed else ["grid_direction"]
        for pr in preds:
            for d in ("l", "u", "r", "d", "dr", "ur", "dl", "ul"):
                for r, c in cells(3, 3):
                    want = frozenset((f"edge_{n}", (r - k, c)) for n, (x, k) in names.items() if x == d)
                    x = diff(solve("".join(f"#defined {q}/3. " for q in preds) + f'{pr}({r}, {c}, "{d}").' + L.convert_direction_to_edge(directed, diagonal), [f"edge_{n}/2" for n in names]), {want}, f"edge for {pr}({r}, {c}, {d})")
                    if x:
                        return x
        return None

    for a in (False, True):
        for b in (False, True):
            yield "loop.convert_direction_to_edge", f"{a} {b}", lambda a=a, b=b: conv(a, b)


# ------------------------------------------------------------------------------------------------ C14
def is_rect(k):
    rs, cs = {r for r, _ in k}, {c for _, c in k}
    return len(k) == (max(rs) - min(rs) + 1) * (max(cs) - min(cs) + 1)


def is_square(k):
    return is_rect(k) and len({r for r, _ in k}) == len({c for _, c in k})


def orientations(shape):
    out = set()
    s = [tuple(p) for p in shape]
    for _ in range(4):
        s = [(c, -r) for r, c in s]
        for t in (s, [(r, -c) for r, c in s]):
            m, n = min(r for r, _ in t), min(c for _, c in t)
            out.add(frozenset((r - m, c - n) for r, c in t))
    return out


def normal(k):
    m, n = min(r for r, _ in k), min(c for _, c in k)
    return frozenset((r - m, c - n) for r, c in k)


def c14():
    from noqx.rule import common as C
    from noqx.rule import neighbor as NB
    from noqx.rule import shape as S

    for h, w in ((3, 3), (3, 4), (1, 4)):
        yield "shape.all_rect", f"{h}x{w}", lambda h=h, w=w: colourings(h, w, S.all_rect("black"), lambda s: all(is_rect(k) for k in components(s, 4)))
        yield "shape.all_rect", f"{h}x{w} squares", lambda h=h, w=w: colourings(h, w, S.all_rect("black", square=True), lambda s: all(is_square(k) for k in components(s, 4)))
    for a, b in ((1, 1), (2, 2), (1, 3), (3, 1), (2, 3), (4, 1)):
        for col in ("black", "not black"):
            yield "shape.avoid_rect", f"{a}x{b} {col}", lambda a=a, b=b, col=col: colourings(3, 4, S.avoid_rect(a, b, color=col), lambda s: not any(all((r + i, c + j) in s for i in range(a) for j in range(b)) for r in range(3 - a + 1) for c in range(4 - b + 1)), col)
        yield "shape.avoid_rect", f"{a}x{b} at a place", lambda a=a, b=b: colourings(3, 4, S.avoid_rect(a, b, corner=(0, 1)), lambda s: not all((i, 1 + j) in s for i in range(a) for j in range(b)))

    for h, w in ((3, 3), (2, 4)):
        yield "shape.no_rect", f"{h}x{w}", lambda h=h, w=w: colourings(h, w, S.no_rect("black"), lambda s: all(not is_rect(k) for k in components(s, 4)), base=NB.adjacent(4))

    def regions(h, w, frag, ok):
        inner = [("edge_left", (r, c)) for r in range(h) for c in range(1, w)] + [("edge_top", (r, c)) for r in range(1, h) for c in range(w)]
        outer = frozenset({("edge_left", (r, c)) for r in range(h) for c in (0, w)} | {("edge_top", (r, c)) for r in (0, h) for c in range(w)})
        text = C.grid(h, w) + C.edge(h, w) + NB.adjacent("edge") + "\n" + frag
        got = solve(text, ["edge_left/2", "edge_top/2"])
        want = set()
        for s in subsets(inner):
            def link(p, q, s=s):
                return (("edge_left" if p[0] == q[0] else "edge_top"), max(p, q)) not in s

            comp = {}
            for p in cells(h, w):
                if p not in comp:
                    k, qd = {p}, deque([p])
                    while qd:
                        x = qd.popleft()
                        for n in near(x, 4):
                            if 0 <= n[0] < h and 0 <= n[1] < w and n not in k and link(x, n):
                                k.add(n)
                                qd.append(n)
                    for x in k:
                        comp[x] = frozenset(k)
            if all(link(p, q) or comp[p] != comp[q] for p in comp for q in near(p, 4) if q in comp) and ok(set(comp.values()), s):
                want.add(outer | s)
        d = diff(got, want, f"division of a {h}x{w} board")
        return d and {**d, "program": text}

    for h, w in ((2, 3), (3, 3), (1, 4)):
        yield "shape.all_rect_region", f"{h}x{w}", lambda h=h, w=w: regions(h, w, S.all_rect_region(), lambda ks, s: all(is_rect(k) for k in ks))
        yield "shape.all_rect_region", f"{h}x{w} squares", lambda h=h, w=w: regions(h, w, S.all_rect_region(square=True), lambda ks, s: all(is_square(k) for k in ks))

    def crossover():
        h, w = 2, 3
        es = [("edge_left", (r, c)) for r in range(h) for c in range(1, w)] + [("edge_top", (1, c)) for c in range(w)]
        got = solve(C.grid(h, w) + "".join(f"{{ {n}({r}, {c}) }}. " for n, (r, c) in es) + S.avoid_region_border_crossover(), ["edge_left/2", "edge_top/2"])
        return diff(got, {s for s in subsets(es) if not any({("edge_left", (0, c)), ("edge_left", (1, c)), ("edge_top", (1, c - 1)), ("edge_top", (1, c))} <= s for c in (1, 2))}, "set of edges")

    yield "shape.avoid_region_border_crossover", "2x3", crossover

    def tiling(shape, color, h, w):
        """Every component of the colour is a placement of the shape; counts of placements."""
        frag = S.general_shape("t", 3, shape, color=color, _type="grid", adj_type=4) + "\n" + S.all_shapes("t", color=color)
        kinds = orientations(shape)
        return colourings(h, w, frag, lambda s: all(normal(k) in kinds for k in components(s, 4)), color, NB.adjacent(4))

    def counting(shape, target, h, w, _id=None, other=None):
        frag = S.general_shape("t", 3, shape, color="black") + "\n" + S.count_shape(target, "t", _id, "black")
        ks = [orientations(shape)]
        if other:
            frag += "\n" + S.general_shape("t", 4, other, color="black")
            if _id is None:
                ks.append(orientations(other))
        return colourings(h, w, frag, lambda s: meets(target, sum(any(normal(k) in kk for kk in ks) for k in components(s, 4))), base=NB.adjacent(4))

    shapes = {n: v for n, v in S.OMINOES[3].items()} | {"domino": S.OMINOES[2]["I"]} | {"one": S.OMINOES[1]["."]}
    for n, sh in shapes.items():
        yield "shape.general_shape", f"tiling by {n}", lambda sh=sh: tiling(sh, "black", 3, 4)
        yield "shape.general_shape", f"tiling by {n} (not black)", lambda sh=sh: tiling(sh, "not black", 3, 3)
        for t in (0, 1, ("le", 1), ("ge", 2)):
            yield "shape.count_shape", f"{n} {t}", lambda sh=sh, t=t: counting(sh, t, 3, 3)
    for n, sh in list(S.OMINOES[4].items()):
        yield "shape.general_shape", f"tiling by {n}4", lambda sh=sh: tiling(sh, "black", 3, 4)
    yield "shape.count_shape", "by id", lambda: counting(S.OMINOES[2]["I"], 1, 3, 3, 3, S.OMINOES[1]["."])
    yield "shape.count_shape", "any id", lambda: counting(S.OMINOES[2]["I"], 1, 3, 3, None, S.OMINOES[1]["."])

    def edge_tiling(shape, h, w):
        frag = S.general_shape("t", 0, shape, color="grid", adj_type="edge") + "\n" + S.all_shapes("t", color="grid")
        kinds = orientations(shape)
        return regions(h, w, frag, lambda ks, s: all(normal(k) in kinds for k in ks))

    def edge_tiling_relaxed(shape, h, w):
        d = edge_tiling(shape, h, w)
        return d

    yield "shape.general_shape", "division into dominoes", lambda: edge_tiling_relaxed(S.OMINOES[2]["I"], 2, 3)
    yield "shape.general_shape", "division into L trominoes", lambda: edge_tiling_relaxed(S.OMINOES[3]["L"], 2, 3)
    yield "shape.general_shape", "division into O tetrominoes", lambda: edge_tiling_relaxed(S.OMINOES[4]["O"], 2, 4)

    def area_shapes(target):
        h, w = 2, 4
        room = {(0, 0), (0, 1), (1, 0), (1, 1)}
        facts = "".join(f"area({int(p in room)}, {p[0]}, {p[1]}). " for p in cells(h, w))
        sh = S.OMINOES[3]["L"]
        frag = S.general_shape("t", 0, sh, color="black", _type="area") + "\n" + S.all_shapes("t", "black", "area") + "\n" + S.count_shape(target, "t", None, "black", "area")
        kinds = orientations(sh)

        def ok(s):
            for part in ({p for p in s if p in room}, {p for p in s if p not in room}):
                n = 0
                for k in components(part, 4):
                    # no coloured cell may touch the shape, in whatever room it lies
                    if normal(k) not in kinds or any(q in s and q not in k for p in k for q in near(p, 4)):
                        return False
                    n += 1
                if not meets(target, n):
                    return False
            return True

        return colourings(h, w, frag, ok, base=facts + NB.adjacent(4))

    for t in (1, ("le", 1), ("ge", 1)):
        yield "shape.general_shape", f"in rooms {t}", lambda t=t: area_shapes(t)


CASES = {"C11": c11, "C12": c12, "C13": c13, "C14": c14}


def _part(job):
    prop, i, n = job
    out, tried = [], 0
    for k, (fn, cid, thunk) in enumerate(CASES[prop]()):
        if k % n != i:
            continue
        tried += 1
        try:
            d = thunk()
        except Exception as e:
            d = {"what": f"{type(e).__name__}: {e}", "raises": True}
        if d:
            out.append((fn, cid, d))
    return tried, out


def run(r, prop):
    from .solvercheck import run_pool

    tried, bad = 0, {}
    for t, out in run_pool(_part, [(prop, i, 32) for i in range(32)], r, f"meaning of {prop}"):
        tried += t
        for fn, cid, d in out:
            bad.setdefault(fn, []).append((cid, d))
    r.bounded_cases += tried
    r.extra["meaning_cases"] = tried
    r.bounded.append({"function": "meaning of the demanded texts", "why": "the semantics of ASP is clingo's", "cases": tried, "bound": "all assignments of boards up to 3x4"})
    for fn, xs in sorted(bad.items()):
        cid, d = xs[0]
        r.violation(f"noqx.rule.{fn} means", f"noqx.rule.{fn} ({cid}): {d['what'][:200]} {str(d.get('example', ''))[:200]}", {"function": f"noqx.rule.{fn}", "case": cid, "difference": d, "cases_failing": len(xs)}, True)
