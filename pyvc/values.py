"""Symbolic values of the verification-condition generator.

Native Python objects stand for concrete values.  Symbolic values are z3 terms (Int, Bool, String, Val, Dir, Col)
or one of the classes below.
"""
import z3
from noqx.puzzle import Color, Direction, Point  # the real definitions


class Unsupported(Exception):
    """The construct is outside the fragment the generator can verify (never a verdict)."""


def _enum(name, members):
    sort, consts = z3.EnumSort(name, members)
    return sort, dict(zip(members, consts))


DirSort, DIRC = _enum("Dir", [d.name for d in Direction])
_colors = [c for c in Color if c.value and (c.value & (c.value - 1)) == 0]
ColSort, COLC = _enum("Col", [c.name for c in _colors])
StrSort = z3.StringSort()
_V = z3.Datatype("Val")
_V.declare("VInt", ("ival", z3.IntSort()))
_V.declare("VStr", ("sval", StrSort))
Val = _V.create()
dir_value = z3.Function("dir_value", DirSort, StrSort)
BACKGROUND = [dir_value(DIRC[d.name]) == z3.StringVal(d.value) for d in Direction]


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_int_e(v):
    return isinstance(v, z3.ArithRef)


def is_bool_e(v):
    return isinstance(v, z3.BoolRef)


def is_str_e(v):
    return isinstance(v, z3.SeqRef)


def is_val_e(v):
    return isinstance(v, z3.DatatypeRef) and v.sort() == Val


def is_dir_e(v):
    return isinstance(v, z3.DatatypeRef) and v.sort() == DirSort


def is_col_e(v):
    return isinstance(v, z3.DatatypeRef) and v.sort() == ColSort


def lift(v):
    """A z3 term for a scalar value, or None."""
    if is_sym(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, Direction):
        return DIRC[v.name]
    if isinstance(v, Color) and v.name in COLC:
        return COLC[v.name]
    if isinstance(v, Rope):
        return v.as_term()
    return None


def to_val(v):
    """Lift to the Val sort (text values)."""
    e = lift(v)
    if e is None:
        return None
    if is_val_e(e):
        return e
    if is_bool_e(e):
        e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if is_int_e(e):
        return Val.VInt(e)
    if is_str_e(e):
        return Val.VStr(e)
    return None


_uf = {}


def uf(name, args, ret):
    sorts = tuple(a.sort() for a in args)
    key = (name, tuple(s.sexpr() for s in sorts), ret.sexpr())
    if key not in _uf:
        _uf[key] = z3.Function(name, *sorts, ret) if sorts else z3.Const(name, ret)
    return _uf[key](*args) if sorts else _uf[key]


class Binder:
    """Variables ranging over the elements of one collection."""

    __slots__ = ("vars", "kind", "name", "args", "order")

    def __init__(self, vars_, kind, name, args=(), order=""):
        self.vars = list(vars_)
        self.kind = kind  # dict / range / areas / cells / opaque
        self.name = name
        self.args = tuple(args)
        self.order = order  # "" natural, "rev" backwards, otherwise some other order of the elements

    def subst(self, m):
        return Binder([_sub(v, m) for v in self.vars], self.kind, self.name, [_sub(a, m) for a in self.args], self.order)

    def ordered(self, order):
        return Binder(self.vars, self.kind, self.name, self.args, order)

    def __repr__(self):
        return f"{','.join(map(str, self.vars))}∈{self.kind}:{self.name}{list(self.args) if self.args else ''}"


def _sub(v, m):
    return z3.substitute(v, *m) if m else v


class Many:
    """All values `value` for bindings of `binders` that satisfy `guard` (a list of conjuncts)."""

    __slots__ = ("binders", "guard", "value")

    def __init__(self, binders, guard, value):
        if isinstance(value, Many):
            binders, guard, value = list(binders) + value.binders, list(guard) + value.guard, value.value
        self.binders, self.guard, self.value = list(binders), list(guard), value

    def subst(self, m):
        return Many([b.subst(m) for b in self.binders], [_sub(g, m) for g in self.guard], subst(self.value, m))

    def __repr__(self):
        return f"{{{self.value!r} | {self.binders} : {self.guard}}}"


class AccRef:
    """Placeholder for the value a slot had when the loop iteration started."""

    def __init__(self, slot):
        self.slot = slot


class Hole:
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f"⟦{self.term}⟧"


class Join:
    """sep.join(entries) with at least one symbolic entry."""

    __slots__ = ("sep", "entries")

    def __init__(self, sep, entries):
        self.sep, self.entries = sep, list(entries)

    def __repr__(self):
        return f"⟪{self.sep!r}.join {self.entries}⟫"


class Rope:
    """A symbolic string: pieces are str, Hole, Join, AccRef or Many (whose value is a string)."""

    __slots__ = ("pieces",)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, Rope):
                for q in p.pieces:
                    self._push(out, q)
            else:
                self._push(out, p)
        self.pieces = tuple(out)

    @staticmethod
    def _push(out, p):
        if isinstance(p, str):
            if p == "":
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
                return
        out.append(p)

    def simple(self):
        """A native str if no symbolic piece is left."""
        if not self.pieces:
            return ""
        if len(self.pieces) == 1 and isinstance(self.pieces[0], str):
            return self.pieces[0]
        return self

    def as_term(self):
        ts = []
        for p in self.pieces:
            if isinstance(p, str):
                ts.append(z3.StringVal(p))
            elif isinstance(p, Hole):
                ts.append(str_term(p.term))
            else:
                return None
        if not ts:
            return z3.StringVal("")
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def __repr__(self):
        return "R" + repr(list(self.pieces))


def str_term(t):
    if is_str_e(t):
        return t
    return uf("str_of_" + t.sort().name().lower(), [t], StrSort)


def rope(*parts):
    ps = []
    for p in parts:
        if isinstance(p, (str, Rope)):
            ps.append(p)
        elif is_sym(p):
            ps.append(Hole(p))
        else:
            ps.append(p)
    return Rope(ps).simple()


class SOpt:
    """value if cond else None."""

    __slots__ = ("cond", "value")

    def __init__(self, cond, value):
        self.cond, self.value = cond, value


class SDict:
    """A symbolic finite map Point -> value (an arbitrary partial function)."""

    def __init__(self, name, vsort):
        self.name, self.vsort = name, vsort
        ks = [z3.IntSort(), z3.IntSort(), DirSort, StrSort]
        self.domf = z3.Function(f"dom_{name}", *ks, z3.BoolSort())
        self.valf = z3.Function(f"val_{name}", *ks, vsort)

    def key(self, k):
        if not isinstance(k, tuple) or len(k) != 4:
            raise Unsupported(f"key of {self.name}: {k!r}")
        es = [lift(x) for x in k]
        if any(e is None for e in es):
            raise Unsupported("key component")
        return es

    def __repr__(self):
        return f"<{self.name}>"


class JMap(SDict):
    """A symbolic JSON object with text keys; build(key) is the value, facts(key) what is known of a key of it."""

    def __init__(self, name, build, facts):
        self.name, self.build, self.facts = name, build, facts
        self.domf = z3.Function(f"dom_{name}", StrSort, z3.BoolSort())

    def key(self, k):
        e = lift(k)
        if e is None or not is_str_e(e):
            raise Unsupported(f"key of {self.name}: {k!r}")
        return [e]

    def valf(self, k):
        return self.build(self.name, k)


class JDoc:
    """A parsed JSON document: a fixed set of sections."""

    def __init__(self, name, sections):
        self.name, self.sections = name, sections


class SUnion:
    """a if cond else b (values of different kinds)."""

    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class JList:
    """A JSON list known by one term only."""

    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term


class SParam:
    """The parameter dictionary of a request."""

    def __init__(self, name="param"):
        self.name = name


class Areas:
    """Result of full_bfs by its contract (rooms indexed by an integer)."""

    def __init__(self, key, args, has_clues):
        self.key_, self.args, self.has_clues = key, tuple(args), has_clues

    def f(self, what, idx, ret, extra=()):
        return uf(f"{what}_{self.key_}", [*self.args, idx, *extra], ret)


class Cells:
    """The cells of one room."""

    def __init__(self, areas, idx):
        self.areas, self.idx = areas, idx

    def contains(self, r, c):
        return self.areas.f("incell", self.idx, z3.BoolSort(), (r, c))


class SSplit:
    """Result of splitting an opaque string."""

    def __init__(self, s, sep, written=None):
        self.s, self.sep = s, sep
        self.written = dict(written or {})  # items assigned later

    def length(self):
        return uf("split_len", [self.s, z3.StringVal(self.sep)], z3.IntSort())

    def item(self, i):
        return uf("split_item", [self.s, z3.StringVal(self.sep), lift(i)], StrSort)


class View:
    """items()/keys()/values()/enumerate() of a collection, kept lazily as (source, mapping)."""

    def __init__(self, entries):
        self.entries = entries  # list of ("one", v) / Many


class EList:
    """A list, tuple-like, or set built by verified code. entries: native value wrapped One, or Many."""

    def __init__(self, entries=(), kind="list", depth=0):
        self.entries, self.kind, self.depth = list(entries), kind, depth

    def concrete(self):
        return all(isinstance(e, One) for e in self.entries)

    def __repr__(self):
        return f"{self.kind}{self.entries}"


class One:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return repr(self.value)


class EDict:
    """A dict built by verified code: entries are One((k, v)) or Many(.., (k, v)), later entries win."""

    def __init__(self, entries=(), depth=0):
        self.entries, self.depth = list(entries), depth

    def concrete(self):
        return all(isinstance(e, One) for e in self.entries)


class Poison:
    def __init__(self, why):
        self.why = why


def subst(v, m):
    """Substitute z3 constants in any value."""
    if not m:
        return v
    if is_sym(v):
        return z3.substitute(v, *m)
    if isinstance(v, tuple):
        xs = [subst(x, m) for x in v]
        return type(v)(*xs) if hasattr(v, "_fields") else tuple(xs)
    if isinstance(v, Rope):
        return Rope([subst(p, m) for p in v.pieces])
    if isinstance(v, Hole):
        return Hole(z3.substitute(v.term, *m))
    if isinstance(v, Join):
        return Join(v.sep, [subst(e, m) for e in v.entries])
    if isinstance(v, One):
        return One(subst(v.value, m))
    if isinstance(v, Many):
        return v.subst(m)
    if isinstance(v, SOpt):
        return SOpt(z3.substitute(v.cond, *m), subst(v.value, m))
    if isinstance(v, Cells):
        return Cells(Areas(v.areas.key_, [z3.substitute(a, *m) for a in v.areas.args], v.areas.has_clues),
                     z3.substitute(v.idx, *m))
    if isinstance(v, SSplit):
        return SSplit(z3.substitute(v.s, *m), v.sep, v.written)
    if isinstance(v, SUnion):
        return SUnion(z3.substitute(v.cond, *m), subst(v.a, m), subst(v.b, m))
    if isinstance(v, JList):
        return JList(z3.substitute(v.term, *m))
    if isinstance(v, EList):
        return EList([subst(e, m) for e in v.entries], v.kind, v.depth)
    if isinstance(v, EDict):
        return EDict([subst(e, m) for e in v.entries], v.depth)
    return v


def free_consts(e, acc=None):
    """Uninterpreted 0-ary constants of a z3 term."""
    acc = {} if acc is None else acc
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[str(x)] = x
            todo.extend(x.children())
    return acc
