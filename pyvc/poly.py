"""Polynomial long division over z3 integer terms (a guess that the solver then confirms)."""
import z3


def poly(e):
    """{monomial (sorted atom ids): coefficient}, and the atoms."""
    atoms = {}

    def go(t):
        if z3.is_int_value(t):
            v = t.as_long()
            return {(): v} if v else {}
        if z3.is_add(t):
            out = {}
            for c in t.children():
                for m, k in go(c).items():
                    out[m] = out.get(m, 0) + k
            return {m: k for m, k in out.items() if k}
        if z3.is_sub(t):
            cs = t.children()
            out = dict(go(cs[0]))
            for c in cs[1:]:
                for m, k in go(c).items():
                    out[m] = out.get(m, 0) - k
            return {m: k for m, k in out.items() if k}
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return {m: -k for m, k in go(t.arg(0)).items()}
        if z3.is_mul(t):
            out = {(): 1}
            for c in t.children():
                p, nxt = go(c), {}
                for m, k in out.items():
                    for n, j in p.items():
                        mn = tuple(sorted(m + n))
                        nxt[mn] = nxt.get(mn, 0) + k * j
                out = nxt
            return {m: k for m, k in out.items() if k}
        atoms[t.get_id()] = t
        return {(t.get_id(),): 1}

    return go(e), atoms


def term(p, atoms):
    ts = []
    for m, k in sorted(p.items()):
        fs = [atoms[i] for i in m]
        t = z3.IntVal(k)
        for f in fs:
            t = t * f
        ts.append(t)
    return z3.simplify(z3.Sum(ts)) if ts else z3.IntVal(0)


def long_division(x, y):
    """Candidates (quotient, remainder) of x by y: subtract multiples of y for the monomials that y's leading one divides."""
    px, ax = poly(x)
    py, ay = poly(y)
    atoms = {**ax, **ay}
    deg = max((len(m) for m in py), default=0)
    if not deg:
        return
    for lead in [m for m in sorted(py) if len(m) == deg and py[m] == 1]:
        q, rem, n = {}, dict(px), 0
        while n < 40:
            n += 1
            hit = None
            for m in rem:
                rest = list(m)
                try:
                    for a in lead:
                        rest.remove(a)
                except ValueError:
                    continue
                hit = (m, tuple(rest))
                break
            if hit is None:
                break
            k = rem[hit[0]]
            q[hit[1]] = q.get(hit[1], 0) + k
            for m, j in py.items():
                mn = tuple(sorted(hit[1] + m))
                rem[mn] = rem.get(mn, 0) - k * j
                if not rem[mn]:
                    del rem[mn]
        if n < 40:
            yield term(q, atoms), term(rem, atoms)
