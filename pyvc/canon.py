"""Canonical names for aggregates, so that code and contract denote the same quantity by the same term."""
import re
import z3
from .values import *


def canon_entries(entries):
    """(text, free constants in order): alpha-renamed bound variables, positional free constants."""
    free, order = {}, []
    texts = []
    for e in sorted(entries, key=lambda e: _shape(e)):
        bound = {}
        if isinstance(e, Many):
            for b in e.binders:
                for v in b.vars:
                    bound[str(v)] = f"B{len(bound)}"
        gs = []
        if isinstance(e, Many):
            g = z3.simplify(z3.And(e.guard)) if e.guard else z3.BoolVal(True)
            conj = list(g.children()) if z3.is_and(g) else [g]
            conj.sort(key=lambda c: re.sub(r"!\d+", "", c.sexpr()))
            gs = [_txt(c, bound, free, order) for c in conj if not z3.is_true(c)]
        texts.append("[" + ";".join(sorted(gs)) + "]=>" + _vtxt(e.value, bound, free, order))
    return "|".join(texts), order


def _shape(e):
    return re.sub(r"!\d+", "", repr(e))


def _txt(t, bound, free, order):
    names = free_consts(t)
    m = []
    for n, c in names.items():
        if n in bound:
            m.append((c, z3.Const(bound[n], c.sort())))
        elif "!" in n:
            if n not in free:
                free[n] = f"F{len(free)}"
                order.append(c)
            m.append((c, z3.Const(free[n], c.sort())))
    return re.sub(r"\s+", " ", z3.substitute(t, *m).sexpr()) if m else re.sub(r"\s+", " ", t.sexpr())


def _vtxt(v, bound, free, order):
    if is_sym(v):
        return _txt(z3.simplify(v), bound, free, order)
    if isinstance(v, tuple):
        return "(" + ",".join(_vtxt(x, bound, free, order) for x in v) + ")"
    if isinstance(v, Rope):
        return "R" + "".join(_vtxt(p.term if isinstance(p, Hole) else p, bound, free, order) for p in v.pieces)
    if isinstance(v, (Many,)):
        return "M" + canon_entries([v])[0]
    return repr(v)
