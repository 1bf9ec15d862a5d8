"""C10: variants of a shape and the tables of named polyominoes.

Proof of get_variants, for every finite cell set and every pair of flags, by exact abstract execution of /repo's code:

* a shape is represented by its orbit position: the coset M.H of the matrix M that maps the given shape S to it, where
  H = { A in D4 : A.S is a translate of S } is the symmetry group of S.  H is one of the ten subgroups of the dihedral
  group of the square, and nothing else about S decides which of its images coincide, so running the code once per
  subgroup and flag pair covers every shape (a complete case distinction, not a sample);
* canonicalize_shape is used through its contract: equal results exactly for translates, and the result is a translate
  of its argument.  The lambdas map one generic point (two symbols) of the shape; the affine map they apply is read off;
* postcondition: the result is exactly { A.S : A in G } with G the group the flags allow.

Proof of canonicalize_shape: run on a symbolic finite set (generic point p, least point m), the result must be p - m in
sorted order; z3 discharges that this is sorted, starts at (0,0), and is invariant under translation.
"""
import importlib
import itertools
import random
import signal

import z3

from .common import *

I2 = ((1, 0), (0, 1))
ROT, FLIP = ((0, -1), (1, 0)), ((-1, 0), (0, 1))
FLIPC = ((1, 0), (0, -1))


def mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(2)) for j in range(2)) for i in range(2))


def closure(gens):
    g = {I2}
    while True:
        n = g | {mul(a, b) for a in gens for b in g}
        if n == g:
            return frozenset(g)
        g = n


D4 = closure([ROT, FLIP])
SUBGROUPS = sorted({closure(s) for k in range(3) for s in itertools.combinations(D4, k)}, key=lambda g: (len(g), sorted(g)))
ALLOWED = {(False, False): [closure([])], (True, False): [closure([ROT])], (False, True): [closure([FLIP]), closure([FLIPC])], (True, True): [D4]}


class Unsup(Exception):
    pass


class Endless(BaseException):
    pass


def limited(secs, f, *a):
    """f(*a), given up after the stated time (a change may make the code run forever)."""
    def ring(*_):
        raise Endless()

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Lin:
    """a*r + b*c + k over the coordinates of one generic point, tagged with the shape they come from."""

    __hash__ = None

    def __init__(self, a, b, k, src):
        self.a, self.b, self.k, self.src = a, b, k, src

    def _lin(self, o):
        if isinstance(o, Lin):
            if o.src is not self.src:
                raise Unsup("coordinates of two shapes mixed")
            return o
        if isinstance(o, int):
            return Lin(0, 0, o, self.src)
        raise Unsup("coordinate arithmetic")

    def __neg__(self):
        return Lin(-self.a, -self.b, -self.k, self.src)

    def __add__(self, o):
        o = self._lin(o)
        return Lin(self.a + o.a, self.b + o.b, self.k + o.k, self.src)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-self._lin(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, int):
            raise Unsup("coordinate arithmetic")
        return Lin(self.a * o, self.b * o, self.k * o, self.src)

    __rmul__ = __mul__

    def _no(self, *a):
        raise Unsup("comparison of coordinates")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __int__ = __index__ = _no


class Shape:
    """The image M.S of the given shape (up to translation), for a shape with symmetry group H."""

    def __init__(self, m, h):
        self.m, self.h = m, h
        self.coset = frozenset(mul(m, x) for x in h)

    def __iter__(self):
        yield (Lin(1, 0, 0, self), Lin(0, 1, 0, self))

    def __hash__(self):
        return hash(self.coset)

    def __eq__(self, o):
        if not isinstance(o, Shape):
            raise Unsup("a shape compared with something else")
        return self.coset == o.coset

    def _no(self, *a):
        raise Unsup("a shape inspected")

    __len__ = __getitem__ = __contains__ = __lt__ = __bool__ = _no


def generic(it, who):
    """The single generic point an iterable over a shape yields, as (src, affine matrix, offset)."""
    pts = list(it)
    if len(pts) != 1 or not isinstance(pts[0], (tuple, list)) or len(pts[0]) != 2 or not all(isinstance(x, Lin) for x in pts[0]):
        raise Unsup(f"{who} of something else than the image of a shape")
    r, c = pts[0]
    if r.src is not c.src:
        raise Unsup("coordinates of two shapes mixed")
    return r.src, ((r.a, r.b), (c.a, c.b)), (r.k, c.k)


def canon_contract(shape, *a, **kw):
    if isinstance(shape, Shape):
        return Shape(shape.m, shape.h)
    src, m, _ = generic(shape, "canonicalize_shape")
    if m not in D4:
        raise AssertionError(f"a shape is mapped by {m}, which is no rotation or reflection")
    return Shape(mul(m, src.m), src.h)


def prove_variants(mod, r):
    """One obligation per symmetry group, flag pair and given orientation."""
    old = mod.canonicalize_shape
    mod.canonicalize_shape = canon_contract
    failed, done, why = [], 0, None
    total = len(SUBGROUPS) * 4
    ok_group = {k: [True] * len(v) for k, v in ALLOWED.items()}
    try:
        for h in SUBGROUPS:
            for fl in ALLOWED:
                try:
                    res = limited(10, mod.get_variants, Shape(I2, h), *fl)
                    if not isinstance(res, (set, frozenset, list, tuple)):
                        raise Unsup("result is no collection")
                    items = list(res)
                    if not all(isinstance(x, Shape) for x in items):
                        raise Unsup("result does not hold the canonical shapes")
                    got = [x.coset for x in items]
                except Unsup as e:
                    why = str(e)
                    continue
                except Endless:
                    failed.append(f"get_variants(rotations={fl[0]}, reflections={fl[1]}) does not end for a shape with {len(h)} symmetries")
                    continue
                except Exception as e:  # an exception for a shape no code path may fail on
                    failed.append(f"get_variants(rotations={fl[0]}, reflections={fl[1]}): {type(e).__name__}: {e}")
                    continue
                hit = False
                for gi, g in enumerate(ALLOWED[fl]):
                    want = {frozenset(mul(a, x) for x in h) for a in g}
                    good = set(got) == want and len(got) == len(want)
                    ok_group[fl][gi] &= good
                    hit |= good
                if hit:
                    done += 1
                else:
                    failed.append(f"get_variants(rotations={fl[0]}, reflections={fl[1]}): wrong images for a shape with {len(h)} symmetries: {len(got)} instead of {len(want)}")
    finally:
        mod.canonicalize_shape = old
    for fl, v in ok_group.items():
        if not failed and not why and not any(v):
            failed.append(f"get_variants{fl}: no single group of images")
    r.add(total, done, "exact abstract execution")
    if why:
        r.bounded.append({"function": "noqx.rule.shape.get_variants", "why": why})
    elif not failed:
        r.functions.append("noqx.rule.shape.get_variants")
    return failed


# ------------------------------------------------------------------------------------------------------ canonicalize_shape

class SPt(tuple):
    """A point of the symbolic set (z3 coordinates)."""


class SymSet:
    """An arbitrary finite non-empty set of points; order: None or 'sorted'."""

    def __init__(self, order=None, off=None):
        self.order, self.off = order, off

    def __iter__(self):
        r, c = z3.Int("p_r"), z3.Int("p_c")
        if self.off is not None:
            r, c = r + self.off[0], c + self.off[1]
        yield SPt((r, c))

    def __getitem__(self, i):
        if self.order != "sorted" or i != 0:
            raise Unsup("indexing an unordered set")
        return self.least()

    def least(self):
        r, c = z3.Int("m_r"), z3.Int("m_c")
        return SPt((r + self.off[0], c + self.off[1]) if self.off is not None else (r, c))

    def _no(self, *a):
        raise Unsup("a shape inspected")

    __len__ = __contains__ = __lt__ = __bool__ = _no


def as_set(x):
    """A SymSet from a SymSet or from an iterator that yields its generic point translated."""
    if isinstance(x, SymSet):
        return x
    pts = list(x)
    if len(pts) != 1 or len(pts[0]) != 2 or not all(isinstance(y, (int, z3.ArithRef)) for y in pts[0]):
        raise Unsup("sorting something else than the shape")
    off = []
    for y, n in zip(pts[0], ("p_r", "p_c")):
        d = z3.simplify(y - z3.Int(n))
        if any(str(v) in ("p_r", "p_c") for v in consts(d)):
            raise Unsup("sorting another image of the shape")
        off.append(d)
    return SymSet(None, tuple(off))


def consts(e):
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def stub_sorted(x, *a, **kw):
    if a or kw:
        raise Unsup("sorting by a key")
    s = as_set(x)
    return SymSet("sorted", s.off)


def stub_min(x, *a, **kw):
    if a or kw:
        raise Unsup("minimum by a key")
    return as_set(x).least()


class Stubs:
    def __init__(self, mod):
        self.mod = mod

    def __enter__(self):
        def keep(cls):
            return lambda x=(), *a: x if isinstance(x, SymSet) else cls(x, *a)

        self.names = {"sorted": stub_sorted, "min": stub_min, "list": keep(list), "set": keep(set), "frozenset": keep(frozenset),
                      "tuple": lambda x=(): TupleOf(x)}
        for k, v in self.names.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k in self.names:
            delattr(self.mod, k)


class TupleOf(tuple):
    """tuple(iterable), remembering whether the source was the ordered set itself."""

    def __new__(cls, x):
        self = tuple.__new__(cls, list(x))
        return self


def lex(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] < b[1]))


def prove_canonical(mod, r):
    """canonicalize_shape(S) = sorted({p - min S : p in S}); with it: sorted, first (0,0), same for translates, translate of S."""
    P = [z3.Int(x) for x in ("p_r", "p_c")]
    Q = [z3.Int(x) for x in ("q_r", "q_c")]
    M = [z3.Int(x) for x in ("m_r", "m_c")]
    T = [z3.Int(x) for x in ("t_r", "t_c")]
    failed = []
    try:
        order = []
        orig_iter = SymSet.__iter__

        def traced(self):
            order.append(self.order)
            return orig_iter(self)

        SymSet.__iter__ = traced
        try:
            with Stubs(mod):
                out = mod.canonicalize_shape(SymSet())
            if isinstance(out, SymSet):
                got, ordered = list(orig_iter(out)), out.order == "sorted"
            else:
                got, ordered = list(out), bool(order) and order[-1] == "sorted"
        finally:
            SymSet.__iter__ = orig_iter
        if len(got) != 1 or len(got[0]) != 2:
            raise Unsup("result is no image of the shape")
        g = [z3.IntVal(x) if isinstance(x, int) else x for x in got[0]]
    except Unsup as e:
        r.add(4, 0, "z3")
        r.bounded.append({"function": "noqx.rule.shape.canonicalize_shape", "why": str(e)})
        return []
    except Exception as e:
        r.add(4, 0, "z3")
        r.bounded.append({"function": "noqx.rule.shape.canonicalize_shape", "why": f"{type(e).__name__}: {e}"})
        return []
    least = lambda m, p: z3.Or(lex(m, p), z3.And(m[0] == p[0], m[1] == p[1]))
    sub = lambda e, **kw: z3.substitute(e, *[(z3.Int(k), v) for k, v in kw.items()])
    gq = [sub(x, p_r=Q[0], p_c=Q[1]) for x in g]
    tr = [sub(x, p_r=P[0] + T[0], p_c=P[1] + T[1], m_r=M[0] + T[0], m_c=M[1] + T[1]) for x in g]
    pre = z3.And(least(M, P), least(M, Q))
    obs = {
        "the result keeps the order of the cells": z3.Implies(z3.And(pre, lex(P, Q)), lex(g, gq)) if ordered else None,
        "the result starts at (0, 0)": z3.And(*[sub(x, p_r=M[0], p_c=M[1]) == 0 for x in g]),
        "the result does not depend on the position": z3.And(*[a == b for a, b in zip(g, tr)]),
        "the result is the shape moved, not turned": z3.And(*[gq[i] - g[i] == Q[i] - P[i] for i in range(2)]),
    }
    done = 0
    for name, ob in obs.items():
        if ob is None:
            failed.append(f"canonicalize_shape: {name} (the cells are not sorted)")
            continue
        s = z3.Solver()
        s.add(z3.Not(ob))
        if s.check() == z3.unsat:
            done += 1
        else:
            failed.append(f"canonicalize_shape: {name}")
    # translated arguments have translated least points
    s = z3.Solver()
    P2, M2 = [P[i] + T[i] for i in range(2)], [M[i] + T[i] for i in range(2)]
    s.add(least(M, P), z3.Not(least(M2, P2)))
    assert s.check() == z3.unsat
    r.add(len(obs), done, "z3", len(obs) + 1)
    if not failed:
        r.functions.append("noqx.rule.shape.canonicalize_shape")
    return failed


# -------------------------------------------------------------------------------------------------------------- native

def norm(cells):
    m = min(cells)
    return tuple(sorted((a - m[0], b - m[1]) for a, b in cells))


def image(m, cells):
    return [(m[0][0] * a + m[0][1] * b, m[1][0] * a + m[1][1] * b) for a, b in cells]


def native(mod, r):
    rng = random.Random(SEED)
    thorough = tier() == "thorough"
    cells3 = [(a, b) for a in range(3) for b in range(3)]
    shapes = [[c for i, c in enumerate(cells3) if k >> i & 1] for k in range(1, 512)]
    for n in range(1, 7 if thorough else 6):
        shapes += [list(s) for s in free(n)]
    for _ in range(4000 if thorough else 400):
        w = rng.randint(1, 7)
        shapes.append(rng.sample([(a, b) for a in range(-w, w) for b in range(-w, w)], min(rng.randint(1, 9), w * w)))
    n = 0
    for s in shapes:
        off = rng.randint(-9, 9), rng.randint(-9, 9)
        moved = [(a + off[0], b + off[1]) for a, b in image(rng.choice(sorted(D4)), s)]
        rng.shuffle(moved)
        for given in (moved,):
            arg = rng.choice([list, tuple, set, lambda x: list(dict.fromkeys(x))])(given)
            try:
                k = mod.canonicalize_shape(arg)
            except Exception as e:
                return n, f"canonicalize_shape({sorted(given)}) raises {type(e).__name__}: {e}", {"cells": sorted(given)}
            if tuple(map(tuple, k)) != norm(given):
                return n, f"canonicalize_shape({sorted(given)}) gives {k}", {"cells": sorted(given), "expected": norm(given), "got": k}
            for fl, groups in ALLOWED.items():
                n += 1
                try:
                    got = [tuple(map(tuple, v)) for v in limited(5, mod.get_variants, arg, *fl)]
                except (Exception, Endless) as e:
                    return n, f"get_variants({sorted(given)}, {fl[0]}, {fl[1]}) raises {type(e).__name__}: {e}", {"cells": sorted(given)}
                wants = [sorted({norm(image(m, given)) for m in g}) for g in groups]
                if sorted(got) not in wants:
                    return n, f"get_variants({sorted(given)}, {fl[0]}, {fl[1]}) gives {len(got)} variants, expected {len(wants[0])}", \
                        {"cells": sorted(given), "flags": fl, "expected": wants[0], "got": sorted(got)}
    return n, None, None


def free(n):
    """All free polyominoes of n cells (independent enumeration)."""
    cur = {((0, 0),)}
    for _ in range(n - 1):
        nxt = set()
        for s in cur:
            for a, b in s:
                for x in ((a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)):
                    if x not in s:
                        nxt.add(least(list(s) + [x]))
        cur = nxt
    return cur


def least(s):
    return min(norm(image(m, s)) for m in D4)


PICTURES = {
    1: {".": ["#"]},
    2: {"I": ["##"]},
    3: {"I": ["###"], "L": ["#.", "##"]},
    4: {"I": ["####"], "O": ["##", "##"], "T": ["###", ".#."], "S": [".##", "##."], "L": ["#.", "#.", "##"]},
    5: {
        "F": [".##", "##.", ".#."], "I": ["#####"], "L": ["#.", "#.", "#.", "##"], "N": [".#", ".#", "##", "#."],
        "P": ["##", "##", "#."], "T": ["###", ".#.", ".#."], "U": ["#.#", "###"], "V": ["#..", "#..", "###"],
        "W": ["#..", "##.", ".##"], "X": [".#.", "###", ".#."], "Y": [".#", "##", ".#", ".#"], "Z": ["##.", ".#.", ".##"],
    },
}


def tables(mod):
    """Complete: the tables are finite constants."""
    out, n = [], 0
    for k, pics in PICTURES.items():
        want = {name: least([(a, b) for a, row in enumerate(p) for b, x in enumerate(row) if x == "#"]) for name, p in pics.items()}
        assert sorted(want.values()) == sorted(free(k))
        got = mod.OMINOES.get(k, {})
        n += 1
        if set(got) != set(want):
            out.append((f"the table of {k} cells names {sorted(got)} instead of {sorted(want)}", {"size": k}))
        for name, w in want.items():
            n += 1
            if name in got:
                cells = [tuple(x) for x in got[name]]
                if len(cells) != k or len(set(cells)) != k or least(cells) != w:
                    out.append((f"the table entry {name!r} of {k} cells is {got[name]}, which is not the {name} polyomino", {"size": k, "name": name, "entry": got[name]}))
    extra = set(mod.OMINOES) - set(PICTURES)
    for k in extra:
        want = sorted(free(k)) if isinstance(k, int) and 0 < k < 9 else None
        n += 1
        if want is None or sorted(least(list(map(tuple, v))) for v in mod.OMINOES[k].values()) != want:
            out.append((f"the table of {k} cells does not hold the free polyominoes", {"size": k}))
    return n, out


def run(r, _):
    mod = importlib.import_module("noqx.rule.shape")
    failed = prove_canonical(mod, r) + prove_variants(mod, r)
    n, bad = tables(mod)
    r.add(n, n - len(bad), "evaluation of constant tables")
    if not bad:
        r.functions.append("noqx.rule.shape.OMINOES (table)")
    for what, rep in bad:
        r.violation(what, what, rep, True)
    cnt, what, rep = native(mod, r)
    r.bounded_cases += cnt
    if what:
        r.violation("variants", what, rep, True)
    elif failed:
        for f in failed:
            r.violation(f, f, {"obligation": f, "verifier": "the obligation is refuted by the abstract execution / z3"}, False)
    r.open += failed
    r.samples.append({"obligation": "get_variants with both flags on a shape with 2 symmetries yields its 4 images, each once"})
    r.assume("shapes are finite sets of cells without repetition (lists of distinct cells)",
             "with reflections but without rotations, the images are the shape and one mirror image (about either axis; no puzzle type uses this combination)",
             "the symmetry group of any finite cell set, up to translation, is a subgroup of the dihedral group of order 8 (all ten are covered)")
