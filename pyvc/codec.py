"""Symbolic boards of the codec: arbitrary editor documents, and the library functions by their contracts."""
import hashlib

import z3

from . import effects
from .interp import Interp
from .run import path_of
from .values import *

I, S, B = z3.IntSort(), StrSort, z3.BoolSort()
CONTENT = z3.Const("content", StrSort)
PLAIN = uf("str_decode", [uf("inflate", [uf("unb64", [uf("payload", [CONTENT], S)], S)], S)], S)
NL = z3.StringVal("\n")


def part(k):
    return uf("split_item", [PLAIN, NL, z3.IntVal(k)], S)


MARGIN = tuple(uf(f"margin{k}", [], I) for k in range(4))
COMMA = z3.StringVal(",")
HEAD = [uf("split_item", [part(0), COMMA, z3.IntVal(k)], S) for k in range(3)]
ROWS, COLS = uf("toint", [HEAD[2]], I), uf("toint", [HEAD[1]], I)

PRE = [uf("split_len", [PLAIN, NL], I) >= 5, uf("split_len", [part(0), COMMA], I) >= 3,
       uf("isint", [HEAD[1]], B), uf("isint", [HEAD[2]], B), *[m >= 0 for m in MARGIN],
       ROWS >= 1 + MARGIN[0] + MARGIN[1], COLS >= 1 + MARGIN[2] + MARGIN[3]]


# ---------------------------------------------------------------------------------------------- documents
def isindex(k):
    return [uf("isint", [k], B), uf("toint", [k], I) >= 0]


def f_index(k):
    return [*isindex(k), z3.Not(z3.Contains(k, COMMA))]


def f_pair(k):
    a, b = (uf("split_item", [k, COMMA, z3.IntVal(j)], S) for j in (0, 1))
    return [z3.Or(z3.And(*f_index(k)), z3.And(z3.Contains(k, COMMA), uf("split_len", [k, COMMA], I) == 2, *isindex(a), *isindex(b)))]


def v_int(n, k):
    return uf(f"json_int_{n}", [k], I)


def v_number(n, k):
    return EList([One(uf(f"json_text_{n}", [k], Val)), One(uf(f"json_colour_{n}", [k], I)), One(uf(f"json_sub_{n}", [k], S))], "list", 0)


def v_symbol(n, k):
    style = SUnion(uf(f"json_many_{n}", [k], B), JList(uf(f"json_flags_{n}", [k], S)), uf(f"json_style_{n}", [k], I))
    return EList([One(style), One(uf(f"json_shape_{n}", [k], S)), One(uf(f"json_layer_{n}", [k], I))], "list", 0)


SECTIONS = {"surface": (v_int, f_index), "number": (v_number, f_index), "sudoku": (v_number, f_index), "symbol": (v_symbol, f_index),
            "edge": (v_int, f_pair), "line": (v_int, f_pair)}


def facts_of(sec, n):
    def facts(k):
        out = list(SECTIONS[sec][1](k))
        if sec in ("number", "symbol"):  # the editor has four kinds of places
            out.append(uf("toint", [k], I) < 4 * (ROWS + 4) * (COLS + 4))
        if sec == "number":
            t = uf(f"json_text_{n}", [k], Val)
            out += [z3.Implies(uf(f"json_sub_{n}", [k], S) == z3.StringVal("4"), Val.is_VStr(t))]
        return out
    return facts


def document(docid, empty=False):
    secs = {}
    for s, (v, _) in SECTIONS.items():
        n = f"{s}@{docid}"
        m = JMap(n, None if empty else v, facts_of(s, n))
        if empty:
            m.writes = []
        secs[s] = m
    return JDoc(docid, secs)


def unreplace(t):
    """(base, (from, to) pairs outermost first) of nested replacements with constant texts."""
    pairs = []
    while z3.is_app(t) and t.decl().name() == "str_replace_2" and z3.is_string_value(t.arg(1)) and z3.is_string_value(t.arg(2)):
        pairs.append((t.arg(1).as_string(), t.arg(2).as_string()))
        t = t.arg(0)
    return t, pairs


def h(x):
    return hashlib.md5(x.encode()).hexdigest()[:8]


class World:
    """Handlers of the library functions for one run."""

    def __init__(self, it, empty_answer=False):
        self.it, self.docs, self.dumped, self.empty_answer = it, {}, [], empty_answer

    def term(self, x):
        t = lift(x)
        if t is None or not is_str_e(t):
            raise Unsupported("text argument of a library function")
        return t

    def loads(self, it, args, kw):
        if len(args) != 1 or kw:
            raise Unsupported("json.loads with options")
        t = self.term(args[0])
        if t.eq(part(1)):
            return MARGIN
        base, pairs = unreplace(t)
        n = len(EXPAND)
        if str(base) in self.docs:
            # what abbreviating does, expanding undoes; parsing what was dumped gives it back
            if frozenset(pairs[:n]) == EXPAND and frozenset((b, a) for a, b in pairs[n:]) == EXPAND and len(pairs) == 2 * n:
                return self.docs[str(base)]
            raise Unsupported("text of a document read back in another way")
        where = [k for k in range(12) if base.eq(part(k))]
        # abbreviations are expanded by a set of replacements that do not interfere (their order does not matter)
        docid = f"part{where[0]}" if where else "text" + h(base.sexpr())
        docid += "" if frozenset(pairs) == EXPAND else ":raw" if not pairs else ":" + h(repr(sorted(pairs)))
        return document(docid, self.empty_answer and docid == "part4")

    def dumps(self, it, args, kw):
        if len(args) != 1 or not isinstance(args[0], JDoc):
            raise Unsupported("json.dumps of this value")
        if kw:
            raise Unsupported("json.dumps with options")
        d = args[0]
        snap = JDoc(d.name, {})
        for s, m in d.sections.items():
            c = JMap(m.name, m.build, m.facts)
            c.writes = list(getattr(m, "writes", []))
            c.written = True
            snap.sections[s] = c
        name = f"json:{d.name}:{len(self.dumped)}"
        self.dumped.append(snap)
        t = uf(name, [], S)
        self.docs[name] = snap
        return t

    def b64decode(self, it, args, kw):
        t = self.term(args[0])
        if z3.is_app(t) and t.decl().name() == "slice":
            base, lo, hi = t.children()
            # the text after the prefix
            if str(lo) == str(len(PREFIX)) and str(hi) == "-999999":
                p = uf("payload", [base], S)
                if z3.is_app(base) and base.decl().kind() == z3.Z3_OP_SEQ_CONCAT and base.num_args() == 2 and str(base.arg(0)) == f'"{PREFIX}"':
                    p = base.arg(1)
                t = p
        if z3.is_app(t) and t.decl().name() == "str_decode" and t.arg(0).decl().name() == "b64":
            return t.arg(0).arg(0)
        return uf("unb64", [t], S)

    def b64encode(self, it, args, kw):
        return uf("b64", [self.term(args[0])], S)

    def compress(self, it, args, kw):
        if len(args) != 1 or kw:
            raise Unsupported("compress with options")
        return uf("zlib", [self.term(args[0])], S)

    def decompress(self, it, args, kw):
        if len(args) != 2 or kw or args[1] != -15:
            raise Unsupported("decompress with other options")
        t = self.term(args[0])
        # raw deflate data is zlib data without its two header and four trailer bytes
        if z3.is_app(t) and t.decl().name() == "slice" and t.arg(0).decl().name() == "zlib" and (str(t.arg(1)), str(t.arg(2))) == ("2", "-4"):
            return t.arg(0).arg(0)
        return uf("inflate", [t], S)

    def style(self, it, args, kw):
        x = it.force(args[0])
        if not isinstance(x, JList):
            return NotImplemented
        return uf("style_number", [x.term], I)

    def install(self):
        it = self.it
        it.overrides = {**it.overrides, "json.loads": self.loads, "json.dumps": self.dumps, "base64.b64decode": self.b64decode, "base64.b64encode": self.b64encode,
                        "noqx.puzzle.penpa.style_convert": self.style, "specs.codec.style_number": self.style}
        it.natives = {"compress": self.compress, "decompress": self.decompress}


PREFIX = "m=edit&p="
EXPAND = frozenset()


def _init():
    global EXPAND
    from specs import codec

    EXPAND = frozenset(codec.ABBREVIATIONS.items())


_init()


# ---------------------------------------------------------------------------------------------- runs
MAPS = ("surface", "text", "symbol", "edge", "line")
VALUES = ("row", "col")


def board_effects(obj):
    maps = {}
    for m in MAPS:
        d = getattr(obj, m)
        if isinstance(d, dict):
            maps[m] = [One((k, v)) for k, v in d.items()]
        elif isinstance(d, EDict):
            maps[m] = list(d.entries)
        else:
            raise Unsupported(f"{m} is {type(d).__name__}")
    return effects.Effects(maps, {**{v: getattr(obj, v) for v in VALUES}, "margin": tuple(obj.margin) if not isinstance(obj.margin, EList) else tuple(e.value for e in obj.margin.entries)})


def explore(fn, pre=(), empty_answer=False, polydiv=False):
    """Run fn(it, world) on every path."""
    it = Interp(axioms=[*PRE, *pre], overrides={}, fuel=400000)
    it.polydiv = polydiv

    def body():
        w = World(it, empty_answer)
        w.install()
        return fn(it, w)

    outs, _ = it.explore(body)
    return it, [path_of(pc, kind, value, reg) for pc, kind, value, reg in outs]


NAME = z3.Const("puzzle_name", StrSort)


def code_decode(it, w):
    from noqx.puzzle.penpa import PenpaPuzzle

    p = it.construct(PenpaPuzzle, [NAME, CONTENT], {})
    it.call(PenpaPuzzle.decode, [p], {})
    return board_effects(p)


def spec_decode(it, w):
    from specs import codec

    return board_effects(it.call(codec.read, [NAME, CONTENT], {}))


def producible_facts(m):
    """What a solver can produce (the postcondition of C06): the drawable elements on and around the board."""
    N = z3.StringVal("normal")
    row, col = ROWS - MARGIN[0] - MARGIN[1], COLS - MARGIN[2] - MARGIN[3]
    C = DIRC["CENTER"]

    def facts(k, v):
        r, c, d, pos = k
        out = [0 <= r, r <= row, 0 <= c, c <= col]
        if m == "surface":
            out += [d == C, pos == N, z3.Or(v == COLC["GRAY"], v == COLC["BLACK"])]
        if m == "text":
            t = uf("str_of_val", [v], S)
            num = uf("str_isdecimal", [t], B)
            out += [d == C, pos == N,
                    z3.Implies(Val.is_VInt(v), z3.And(Val.ival(v) >= 0, num, uf("toint", [t], I) == Val.ival(v))),
                    z3.Implies(Val.is_VStr(v), z3.And(t == Val.sval(v), z3.Not(num)))]
        if m == "symbol":
            us = z3.StringVal("__")
            a, b = (uf("split_item", [v, us, z3.IntVal(j)], S) for j in (0, 1))
            out += [d == C, pos == N, uf("split_len", [v, us], I) == 2, uf("isint", [b], B), v == z3.Concat(a, us, b),
                    uf("str_of_int", [uf("toint", [b], I)], S) == b]
        if m == "edge":
            out += [pos == N, v, z3.Or([d == DIRC[x] for x in ("TOP", "LEFT", "DIAG_UP", "DIAG_DOWN")])]
        if m == "line":
            two = [z3.StringVal(x + y) for x in "udlr" for y in ("_1", "_2")]
            one = [z3.StringVal(x) for x in "udlr"]
            hashi = NAME == z3.StringVal("hashi")
            out += [d == C, v, z3.If(hashi, z3.Or([pos == x for x in two]), z3.Or([pos == x for x in one]))]
        return out
    return facts


def answer_maps(name="sol", producible=False):
    """An arbitrary solution: what the maps hold is free, but symbols are written shape__style."""
    out = {}
    for m, sort in (("surface", ColSort), ("text", Val), ("symbol", StrSort), ("edge", B), ("line", B)):
        d = SDict(f"{name}_{m}", sort)
        if producible:
            d.itemfacts = producible_facts(m)
        elif m == "symbol":
            def facts(k, v):
                us = z3.StringVal("__")
                return [uf("split_len", [v, us], I) == 2, uf("isint", [uf("split_item", [v, us, z3.IntVal(1)], S)], B)]
            d.itemfacts = facts
        out[m] = d
    return out


def encode_effects(w, result):
    if len(w.dumped) != 1:
        raise Unsupported(f"{len(w.dumped)} documents written")
    doc = w.dumped[0]
    maps = {f"answer.{s}": list(m.writes) for s, m in doc.sections.items()}
    return effects.Effects(maps, {"result": result, "answer": doc.name})


def code_encode(it, w):
    from noqx.puzzle.penpa import PenpaPuzzle

    p = it.construct(PenpaPuzzle, [NAME, CONTENT], {})
    it.call(PenpaPuzzle.decode, [p], {})
    it.call(PenpaPuzzle.clear, [p], {})
    for m, d in answer_maps().items():
        object.__setattr__(p, m, d)
    return encode_effects(w, it.call(PenpaPuzzle.encode, [p], {}))


def spec_encode(it, w):
    from specs import codec

    b = it.call(codec.Drawing, [NAME, CONTENT], {})
    it.call(codec.open_, [b], {})
    for m, d in answer_maps().items():
        object.__setattr__(b, m, d)
    return encode_effects(w, it.call(codec.write, [b], {}))


def spec_given(it, w):
    from specs import codec

    b = it.call(codec.Drawing, [NAME, CONTENT], {})
    it.call(codec.open_, [b], {})
    for m, d in answer_maps().items():
        object.__setattr__(b, m, d)
    return board_effects(it.call(codec.given_elements, [b], {}))


KIND_OF = {"surface": "surface", "number": "text", "symbol": "symbol", "edge": "edge", "line": "line"}


def overdrawn(code_path, given_path):
    """(id, hypotheses that must be contradictory, text): the code writes an entry for an element that is given."""
    from . import match

    out = []
    for sec, m in KIND_OF.items():
        for k, f in enumerate(effects.fams(sec, code_path.value.maps.get(f"answer.{sec}", []))):
            hyps = list(code_path.pc) + list(given_path.pc) + match.hyp_of(f.binders, f.guard)
            for j, g in enumerate(effects.fams(m, given_path.value.maps[m])):
                pairs = [(x, y) for x in f.binders for y in g.binders if x.kind == y.kind == "dict" and x.name == y.name]
                sub = [(v, u) for x, y in pairs for u, v in zip(x.vars, y.vars)]
                if not pairs:
                    raise Unsupported("an entry that stems from no element of the solution")
                extra = [z3.substitute(c, *sub) for c in match.hyp_of(g.binders, g.guard)]
                out.append((f"{sec}{k}.{j}", hyps + extra, f"{f.key!r} is not drawn where the question has an element: {match._short(f.binders, f.guard)}"))
    return out


# ---------------------------------------------------------------------------------------------- geometry
def _geo_board(cls, it):
    b = it.construct(cls, ["x", ""], {})
    b.row, b.col, b.margin = GROW, GCOL, GMARGIN
    return b


GROW, GCOL, INDEX, PR, PC, CAT = z3.Ints("g_rows g_cols index p_r p_c category")
GMARGIN = tuple(z3.Ints("g_top g_bottom g_left g_right"))
GH, GW = GROW + GMARGIN[0] + GMARGIN[1] + 4, GCOL + GMARGIN[2] + GMARGIN[3] + 4
GEO = [GROW >= 1, GCOL >= 1, *[m >= 0 for m in GMARGIN], INDEX >= 0, INDEX < 4 * GH * GW, 0 <= CAT, CAT <= 3,
       PR >= -2 - GMARGIN[0], PR < GROW + GMARGIN[1] + 2, PC >= -2 - GMARGIN[2], PC < GCOL + GMARGIN[3] + 2]


def _flat(v):
    return tuple(_flat(x) for x in v) if isinstance(v, (tuple, list)) else v


def code_index(it, w):
    from noqx.puzzle import penpa

    p = _geo_board(penpa.PenpaPuzzle, it)
    cls = type(p)
    ask = lambda f, *a: _flat(it.call(f, [p, *a], {}))
    there = ask(cls.index_to_coord, INDEX)
    back = ask(cls.coord_to_index, (PR, PC), CAT)
    return effects.Effects({}, {
        "coord": there, "index": back, "default": ask(cls.coord_to_index, (PR, PC)),
        "index of coord": ask(cls.coord_to_index, *there), "coord of index": ask(cls.index_to_coord, back),
        "direction": _flat(it.call(penpa.category_to_direction, [PR, PC, CAT], {}))})


def spec_index(it, w):
    from specs import codec

    b = _geo_board(codec.Drawing, it)
    r, c, k = it.call(codec.locate, [b, INDEX], {})
    s = it.call(codec.spot, [b, it.call(codec.number_of, [b, PR, PC, CAT], {})], {})
    return effects.Effects({}, {
        "coord": ((r, c), k), "index": it.call(codec.number_of, [b, PR, PC, CAT], {}), "default": it.call(codec.number_of, [b, PR, PC, 0], {}),
        "index of coord": INDEX, "coord of index": ((PR, PC), CAT), "direction": tuple(s)[:3]})


def euclid(paths):
    """Division facts x = (x div y) * y + (x mod y) for every division in the results."""
    out, seen = [], set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        for c in t.children():
            go(c)
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            x, y = t.children()
            out.append(z3.Implies(y > 0, z3.And(x == (x / y) * y + x % y, 0 <= x % y, x % y < y)))

    def walk(v):
        if isinstance(v, tuple):
            for x in v:
                walk(x)
        elif z3.is_expr(v):
            go(v)
    for p in paths:
        if p.kind != "raise":
            for v in p.value.values.values():
                walk(v)
        for c in p.pc:
            go(c)
    return out


def code_roundtrip(it, w):
    from noqx.puzzle.penpa import PenpaPuzzle

    p = it.construct(PenpaPuzzle, [NAME, CONTENT], {})
    it.call(PenpaPuzzle.decode, [p], {})
    it.call(PenpaPuzzle.clear, [p], {})
    for m, d in answer_maps(producible=True).items():
        object.__setattr__(p, m, d)
    text = it.call(PenpaPuzzle.encode, [p], {})
    q = it.construct(PenpaPuzzle, [NAME, text], {})
    it.call(PenpaPuzzle.decode, [q], {})
    return board_effects(q)


def spec_roundtrip(it, w):
    from specs import codec

    b = it.call(codec.Drawing, [NAME, CONTENT], {})
    it.call(codec.open_, [b], {})
    for m, d in answer_maps(producible=True).items():
        object.__setattr__(b, m, d)
    return board_effects(it.call(codec.reread, [b], {}))


# ---------------------------------------------------------------------------------------------- answers
def word(t):
    """An uninterpreted token of an answer: no brackets, commas, quotes or blanks."""
    return Hole(t)


def atom_family(kind, text, nargs, sorts, guard=lambda *a: []):
    """(name, binder vars, guard) -> all atoms of a kind in an arbitrary answer."""
    vs = [z3.Const(f"{kind}_{j}", so) for j, so in enumerate(sorts)]
    dom = uf(f"atom_{kind}", vs, B)
    return vs, [Binder(vs, "dict", f"atoms.{kind}")], [dom, *guard(*vs)]


KINDS = []  # (kind, sorts, text(vars) -> Rope, guard)


def _kinds():
    from noqx.puzzle import Direction

    def atom(name, *args):
        ps = [name, "("] if isinstance(name, str) else [name, "("]
        for j, a in enumerate(args):
            if j:
                ps.append(",")
            ps += a if isinstance(a, list) else [a if isinstance(a, str) else Hole(a)]
        return Rope([*ps, ")"])

    hashi = NAME == z3.StringVal("hashi")
    for d in ("top", "left", "diag_up", "diag_down"):
        yield f"edge_{d}", (I, I), lambda r, c, d=d: atom(f"edge_{d}", r, c), lambda *a: []
    for g in ("direction", "in", "out"):
        yield f"grid_{g}", (I, I, S), lambda r, c, x, g=g: atom(f"grid_{g}", r, c, ['"', Hole(x), '"']), lambda r, c, x: [z3.Not(hashi), word_fact(x)]
    yield "grid_bridge", (I, I, S, I), lambda r, c, x, n: atom("grid_direction", r, c, ['"', Hole(x), '"'], n), lambda r, c, x, n: [hashi, word_fact(x)]
    yield "number", (I, I, I), lambda r, c, n: atom("number", r, c, n), lambda *a: []
    yield "numberx", (I, I, I), lambda r, c, n: atom("numberx", r, c, n), lambda *a: []
    yield "content", (I, I, S), lambda r, c, x: atom("content", r, c, ['"', Hole(x), '"']), lambda r, c, x: [word_fact(x)]
    for x in ("ul", "ur", "dl", "dr"):
        yield f"triangle_{x}", (I, I), lambda r, c, x=x: atom("triangle", r, c, f'"{x}"'), lambda *a: []
    yield "gray", (I, I), lambda r, c: atom("gray", r, c), lambda *a: []
    yield "black", (I, I), lambda r, c: atom("black", r, c), lambda *a: []
    yield "named", (S, I, I), lambda w, r, c: atom(Hole(w), r, c), lambda w, r, c: [word_fact(w), *other_name(w)]


def word_fact(t):
    return uf("word", [t], B)


def other_name(t):
    v = z3.StringVal
    return [z3.Not(z3.PrefixOf(v(x), t)) for x in ("edge_", "grid_", "number", "content")] + [t != v(x) for x in ("triangle", "gray", "black")]


MODEL = z3.Const("model", StrSort)


class AnySolver(dict):
    """The registry of solvers, every one with the inherited refine."""

    def _pyvc_get(self, it, k):
        from noqx.manager import Solver

        self.asked = k
        return self.obj


def answer_entries():
    out = []
    for kind, sorts, text, guard in _kinds():
        vs, bs, g = atom_family(kind, text, len(sorts), sorts, guard)
        out.append(Many(bs, g, text(*vs)))
    return out


def code_store(it, w):
    from noqx import manager
    from noqx.puzzle.penpa import PenpaPuzzle

    class Plain(manager.Solver):
        pass

    p = it.construct(PenpaPuzzle, [NAME, CONTENT], {})
    table = AnySolver()
    table.obj = it.construct(Plain, [], {})
    saved = manager.modules
    manager.modules = table
    it.splits = {MODEL.get_id(): answer_entries()}
    try:
        s = it.call(manager.store_solution, [p, MODEL], {})
    finally:
        manager.modules = saved
    e = board_effects(s)
    e.values.update({"puzzle_name": s.puzzle_name, "content": s.content})
    return e


def spec_store(it, w):
    """Each atom is one element: the contract, kind by kind."""
    from noqx.puzzle import Color, Direction
    from specs import codec

    b = it.call(codec.Drawing, [NAME, CONTENT], {})
    it.call(codec.open_, [b], {})
    maps = {m: [] for m in MAPS}
    C = Direction.CENTER
    for kind, sorts, text, guard in _kinds():
        vs, bs, g = atom_family(kind, text, len(sorts), sorts, guard)
        if kind.startswith("edge_"):
            r, c = vs
            d = {"top": Direction.TOP, "left": Direction.LEFT, "diag_up": Direction.DIAG_UP, "diag_down": Direction.DIAG_DOWN}[kind[5:]]
            m, k, v = "edge", Point(r, c, d, "normal"), True
        elif kind == "grid_bridge":
            r, c, x, n = vs
            m, k, v = "line", Point(r, c, C, Rope([Hole(x), "_", Hole(n)])), True
        elif kind.startswith("grid_"):
            r, c, x = vs
            m, k, v = "line", Point(r, c, C, x), True
        elif kind.startswith("number"):
            r, c, n = vs
            m, k, v = "text", Point(r, c, C, "normal"), n
        elif kind == "content":
            r, c, x = vs
            m, k, v = "text", Point(r, c, C, "normal"), x
        elif kind.startswith("triangle_"):
            r, c = vs
            m, k, v = "symbol", Point(r, c, C, "normal"), "tri__" + {"ul": "1", "dl": "2", "dr": "3", "ur": "4"}[kind[9:]]
        elif kind in ("gray", "black"):
            r, c = vs
            m, k, v = "surface", Point(r, c, C, "normal"), {"gray": Color.GRAY, "black": Color.BLACK}[kind]
        else:
            x, r, c = vs
            m, k, v = "symbol", Point(r, c, C, "normal"), x
        maps[m].append(Many(bs, g, (k, v)))
    e = board_effects(b)
    e.maps = maps
    e.values.update({"puzzle_name": NAME, "content": CONTENT})
    return e


# ---------------------------------------------------------------------------------------------- refinements
def _refine_board(it, name, cls):
    from .run import sym_puzzle

    p = sym_puzzle(name, cls.parameters)
    it.objdepth[id(p)] = 0
    for m in MAPS:
        d = getattr(p, m)
        d.name = f"sol_{m}"
        d.writes = []
    C, N = DIRC["CENTER"], z3.StringVal("normal")
    letters = uf("param_val_letters", [], S)

    def tf(k, v):
        hi = {"news": z3.IntVal(4)}.get(name, uf("strlen", [letters], I))
        return [k[2] == C, k[3] == N, Val.is_VInt(v), Val.ival(v) >= 1, Val.ival(v) <= hi]

    p.text.itemfacts = tf
    p.symbol.itemfacts = lambda k, v: [k[2] == C, k[3] == N, uf("split_len", [v, z3.StringVal("__")], I) >= 1]
    return p


def _refined(p):
    return effects.Effects({m: list(getattr(p, m).writes) for m in MAPS}, {"row": p.row, "col": p.col})


def code_refine(name):
    def run(it, w):
        from .run import solver_class

        cls = solver_class(name)
        p = _refine_board(it, name, cls)
        it.call(cls.refine, [it.construct(cls, [], {}), p], {})
        return _refined(p)
    return run


def spec_refine(name):
    def run(it, w):
        from specs import codec
        from .run import solver_class

        p = _refine_board(it, name, solver_class(name))
        it.call(codec.REFINE[name], [p], {})
        return _refined(p)
    return run
