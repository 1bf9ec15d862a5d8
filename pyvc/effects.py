"""Verification conditions for functions that write maps and attributes: every entry the code writes is one the contract
writes, and conversely; attribute values agree; outcomes and exceptions agree."""
import time

import z3

from . import match
from .interp import Interp
from .values import *

PHASES = "document"


class Effects:
    """What a run left behind: maps (name -> entries One/Many of (key, value)) and plain values."""

    def __init__(self, maps, values):
        self.maps, self.values = maps, values


class Fam:
    __slots__ = ("target", "binders", "guard", "key", "value", "tag", "n")

    def __init__(self, target, binders, guard, key, value, n):
        self.target, self.binders, self.guard, self.key, self.value, self.n = target, list(binders), list(guard), key, value, n
        self.tag = target

    def docs(self):
        return sorted({b.name for b in self.binders if b.kind == "dict"})


def fams(target, entries):
    out = []

    def go(e, bs, gs):
        if isinstance(e, Many):
            go(e.value, bs + e.binders, gs + e.guard)
        elif isinstance(e, One):
            go(e.value, bs, gs)
        else:
            k, v = e
            out.append(Fam(target, bs, gs, k, v, len(out)))

    for e in entries:
        go(e, [], [])
    return out


def _eq(a, b):
    """Equality of two values as a formula (or bool); a fresh interpreter decides nothing by case split."""
    it = _Eq()
    return it.eq(_plain(a), _plain(b))


class _Eq(Interp):
    def __init__(self):
        super().__init__()

        class R:
            pc, taken, prefix, forks, depth, no_fork = [], (), (), [], 0, 1
        self.cur = R()


def _plain(v):
    if isinstance(v, EList) and v.concrete():
        return tuple(_plain(e.value) for e in v.entries)
    if isinstance(v, list):
        return tuple(_plain(x) for x in v)
    if isinstance(v, tuple):
        return tuple(_plain(x) for x in v)
    if isinstance(v, Rope):
        t = v.as_term()
        if t is None:
            raise Unsupported("comparison of joined texts")
        return t
    return v


def value_eqs(a, b):
    """Conjuncts equating two values, or None if they are never equal."""
    a, b = _plain(a), _plain(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            e = value_eqs(x, y)
            if e is None:
                return None
            out += e
        return out
    # texts built from numbers: piece by piece
    c = _eq(a, b)
    if c is True:
        return []
    if c is False:
        return None
    return [c]


def text_eqs(a, b):
    """Equations between two ropes of the same pieces (sufficient for equality), or None."""
    if isinstance(a, Rope) and isinstance(b, Rope) and len(a.pieces) == len(b.pieces):
        out = []
        for x, y in zip(a.pieces, b.pieces):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return None
            elif isinstance(x, Hole) and isinstance(y, Hole) and x.term.sort() == y.term.sort():
                out.append(x.term == y.term)
            else:
                return None
        return out
    return None


def pair_eqs(f, g):
    k = text_eqs(f.key, g.key)
    if k is None:
        k = value_eqs(f.key, g.key)
    if k is None:
        return None
    v = value_eqs(f.value, g.value)
    return None if v is None else k + v


def compare(name, real, spec, pre, hints=None, facts=()):
    """Obligations for code paths against contract paths (Path.value is an Effects when the run returns)."""
    pr = match.Prover(list(pre) + list(facts))
    obs, npairs, kind = [], 0, "full"
    for i, p in enumerate(real):
        for j, q in enumerate(spec):
            if len(real) * len(spec) > 1:
                kind = match.pair(pr, p, q)
                if not kind:
                    continue
            npairs += 1
            sid = f"{name}/p{i}.{j}" if len(real) * len(spec) > 1 else name
            obs += compare_pair(sid, p, q, pr, hints, kind)
    if not npairs:
        obs.append(match.Ob(f"{name}/vacuous", "unknown", "vacuity", "no feasible pair of paths"))
    return obs, pr


def compare_pair(sid, p, q, pr, hints=None, what="full"):
    obs = []
    branch = p.branch + q.branch
    pcs = list(p.pc) + list(q.pc)
    pk = "raise" if p.kind == "raise" else "normal"
    qk = "raise" if q.kind == "raise" else "normal"
    rr, sr = match.raise_fams(p), match.raise_fams(q)
    t0 = time.time()

    def add(kind, status, tag, text, detail="", m=None, binders=()):
        nonlocal t0
        t = time.time()
        bad = status != "proved"
        obs.append(match.Ob(f"{sid}/{kind}", status, tag, text, detail, m, t - t0, query=getattr(pr, "query", None) if bad else None, binders=binders if bad else ()))
        t0 = t

    if pk == "raise" and qk == "raise":
        a, b = p.value[0], q.value[0]
        add("outcome", "proved" if a == b else "failed", "require", f"raises {a}", "" if a == b else f"contract: {b}")
        return obs
    if pk != qk:
        fs = sr if pk == "raise" else rr
        goals, qg = [], []
        for f in fs:
            a, b = match.ex_goals(f.binders, f.guard, [])
            goals += a
            qg += b
        st, m = pr.prove(branch, goals or [z3.BoolVal(False)], qg)
        add("outcome", st, "require", f"code {pk}s, contract {qk}s: {(p.value if pk == 'raise' else q.value)}", "", m)
        return obs
    for kind, xs, ys in (("raise-allowed", rr, sr), ("raise-demanded", sr, rr)):
        for k, f in enumerate(xs):
            goals, qg = [], []
            for g in ys:
                if g.exc == f.exc:
                    a, b = match.ex_goals(g.binders, g.guard, f.binders)
                    goals += a
                    qg += b
            st, m = pr.prove(branch + f.pc + match.hyp_of(f.binders, f.guard), goals or [z3.BoolVal(False)], qg)
            add(f"{kind}{k}", st, "require", f"{f.exc} if {match._short(f.binders, f.guard)}", "", m, f.binders)
    if what == "raises":
        return obs
    P, Q = p.value, q.value
    for t in Q.values:
        e = text_eqs(P.values.get(t), Q.values[t])
        if e is None:
            e = value_eqs(P.values.get(t), Q.values[t])
        if e is None:
            add(f"value-{t}", "failed", t, f"{t}: {P.values.get(t)!r}"[:300], f"contract: {Q.values[t]!r}"[:300])
        else:
            st, m = pr.prove(pcs, [z3.And(e)] if e else [z3.BoolVal(True)])
            add(f"value-{t}", st, t, f"{t} = {P.values.get(t)!r}"[:300], "", m)
    for t in Q.maps:
        rf, sf = fams(t, P.maps.get(t, [])), fams(t, Q.maps[t])
        for kind, xs, ys in (("writes-allowed", rf, sf), ("writes-demanded", sf, rf)):
            for k, f in enumerate(xs):
                hyps = pcs + match.hyp_of(f.binders, f.guard) + match.no_raise(rr, f.binders) + match.no_raise(sr, f.binders)
                if hints:
                    hyps += hints(f)
                goals, qg = [], []
                for g in ys:
                    eqs = pair_eqs(f, g)
                    if eqs is None:
                        continue
                    a, b = match.ex_goals(g.binders, list(g.guard) + eqs, f.binders)
                    goals += a
                    qg += b
                st, m = pr.prove(hyps, goals or [z3.BoolVal(False)], qg)
                add(f"{kind}-{t}{k}", st, t, f"{t}[{f.key!r}] = {f.value!r} for {match._short(f.binders, f.guard)}", "" if goals else "no entry of this form", m, f.binders)
        # entries of different documents may meet at one place: the later one wins on both sides
        da, db = order(rf), order(sf)
        ok = da == db or not all(da) or not all(db)
        add(f"order-{t}", "proved" if ok else "failed", t, f"{t}: layers in the order {da}", "" if ok else f"contract: {db}")
    return obs


def order(fs):
    out = []
    for f in fs:
        d = f.docs()
        if d and (not out or out[-1] != d):
            out.append(d)
    return out
