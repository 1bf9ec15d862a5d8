"""Turning the counter-model of a failed obligation into a concrete board."""
import z3

from .values import *
from .values import Val
from . import loops

MAP_SORT = {"text": Val, "symbol": StrSort, "surface": ColSort, "edge": z3.BoolSort(), "line": z3.BoolSort()}


def _domf(name):
    return z3.Function(f"dom_{name}", z3.IntSort(), z3.IntSort(), DirSort, StrSort, z3.BoolSort())


def _valf(name):
    return z3.Function(f"val_{name}", z3.IntSort(), z3.IntSort(), DirSort, StrSort, MAP_SORT[name])


def _atoms(query):
    """The map lookups occurring in the query without bound variables: (map, key terms)."""
    out, seen = [], set()
    todo = list(query)
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_expr(x):
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            n = x.decl().name()
            if n.startswith(("dom_", "val_")) and n[4:] in MAP_SORT:
                out.append((n[4:], [x.arg(i) for i in range(4)]))
            todo.extend(x.children())
    return out


def _mentions(query, what):
    return any(what in q.sexpr() for q in query)


class Builder:
    def __init__(self, m, query):
        self.m, self.query = m, query
        self.txt = " ".join(q.sexpr() for q in query)

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def py(self, t):
        v = self.ev(t)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        if z3.is_string_value(v):
            return v.as_string()
        return v.decl().name() if z3.is_app(v) else None

    def leaf(self, s):
        """A string the model knows only by what is said about it."""
        lit = self.py(s)
        if self.truth("str_isdigit", s) or self.truth("isint", s):
            if lit.isdigit():
                return lit
            n = self.py(uf("toint", [s], z3.IntSort()))
            return str(n if n >= 0 else 0)
        if self.truth("str_isspace", s):
            return " "
        if lit.isdigit() and "str_isdigit" in self.txt:
            return "q"
        return lit

    def truth(self, f, s):
        return f in self.txt and self.py(uf(f, [s], z3.BoolSort())) is True

    def string(self, s):
        for sep in ("__", "_"):
            if f'"{sep}"' in self.txt and "split_item" in self.txt:
                n = self.py(uf("split_len", [s, z3.StringVal(sep)], z3.IntSort()))
                if "split_len" in self.txt and not 1 <= n <= 4:
                    continue
                if "split_len" not in self.txt:
                    n = 2
                if sep == "_" and "split_has" not in self.txt and self.leaf(s) not in ("",) and n < 2:
                    continue
                parts = [self.leaf(uf("split_item", [s, z3.StringVal(sep), z3.IntVal(i)], StrSort)) for i in range(n)]
                return sep.join(p.replace("_", "-") if sep == "_" else p for p in parts)
        return self.leaf(s)

    def value(self, name, key):
        v = _valf(name)(*key)
        if name in ("edge", "line"):
            return self.py(v)
        if name == "surface":
            return self.py(v)
        if name == "symbol":
            return self.string(self.ev(v))
        w = self.ev(v)
        if self.py(Val.is_VInt(w)):
            return self.py(Val.ival(w))
        return self.string(self.ev(Val.sval(w)))


def board(name, ob, pre, params, size, timeout=4000):
    """(board as data, faithful?) or None."""
    if not ob.query:
        return None
    row, col = z3.Int("row"), z3.Int("col")
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*pre)
    s.add(*BACKGROUND)
    s.add(*ob.query)
    if size:
        s.add(row <= size, col <= size)
    ats = [(a, k) for a, k in _atoms(ob.query)]
    elems, ends = loops.relay_terms(ob.query)
    before = [(src, k, [uf(f"prev#{src}_{j}", k, x.sort()) for j, x in enumerate(k)]) for src, k in elems if src in MAP_SORT]
    final = [(src, [z3.Const(f"final#{src}_{j}", x) for j, x in enumerate(loops._relays[src])]) for src in ends if src in MAP_SORT and src in loops._relays]
    ats += [(src, x) for src, k, p in before for x in (k, p)] + final
    if before or final:
        s.add(*loops.relay_facts(ob.query))
    if size:
        for _, k in ats:
            s.add(k[0] >= -2, k[0] <= size + 1, k[1] >= -2, k[1] <= size + 1)
        more = loops.unrolled(ob.query, range(-2, size + 2))
        s.add(*more)
        ats += [x for x in ((a, k) for a, k in _atoms(more)) if not any(x[0] == a and all(p.eq(q) for p, q in zip(x[1], k)) for a, k in ats)]
    if s.check() != z3.sat:
        return None
    b = Builder(s.model(), ob.query)
    out = {"name": name, "row": b.py(row), "col": b.py(col), "margin": [max(0, min(3, b.py(z3.Int(f"margin{i}")))) for i in range(4)], "param": {}}
    if out["row"] > 14 or out["col"] > 14:
        return None
    for k, d in (params or {}).items():
        t = d.get("type", "text")
        if t == "checkbox":
            out["param"][k] = b.py(uf(f"param_bool_{k}", [], z3.BoolSort()))
        elif t == "select":
            ds = d.get("default")
            opts = list(ds) if isinstance(ds, (list, tuple, dict)) else list(d.get("options", [ds]))
            v = b.py(uf(f"param_str_{k}", [], StrSort))
            out["param"][k] = v if v in opts else opts[-1]
        else:
            v = uf(f"param_val_{k}", [], StrSort)
            out["param"][k] = b.leaf(v) or str(d.get("default"))
    for m in MAP_SORT:
        out[m] = []
        have = set()
        for a, k in ats:
            if a != m or b.py(_domf(m)(*k)) is not True:
                continue
            key = (b.py(k[0]), b.py(k[1]), b.py(k[2]), b.py(k[3]))
            if key in have:
                continue
            have.add(key)
            out[m].append([*key, b.value(m, k)])
    for m in ("text", "symbol"):  # as many elements as the model counts
        want = b.py(z3.Int(f"len_{m}")) if f"len_{m}" in b.txt else 0
        usual = ["CENTER", "normal", 1] if m == "text" else None
        for k in range(64):
            if not isinstance(want, int) or len(out[m]) >= min(want, 12):
                break
            like = next((e[2:] for e in out[m] if e[2] == "CENTER"), usual)
            if like and not any(e[:4] == [k // 8, k % 8, *like[:2]] for e in out[m]) and k // 8 < out["row"] and k % 8 < out["col"]:
                out[m].append([k // 8, k % 8, *like])
    for src, k, p in before:  # in the order the model has them
        at = lambda ts: next((e for e in out[src] if e[:4] == [b.py(t) for t in ts]), None)
        x, y = at(k), at(p)
        if x is not None and x is not y:
            if b.py(uf(f"head#{src}", k, z3.BoolSort())) is True:
                out[src].remove(x)
                out[src].insert(0, x)
            elif y is not None and out[src].index(y) + 1 != out[src].index(x):
                out[src].remove(y)
                out[src].insert(out[src].index(x), y)
    for src, k in final:
        x = next((e for e in out[src] if e[:4] == [b.py(t) for t in k]), None)
        if x is not None:
            out[src].remove(x)
            out[src].append(x)
    faithful = not any(x in b.txt for x in ("bfs[", "str_", "slice", "charat", "#"))
    return out, faithful
