"""Verification conditions: the text the code emits is, statement for statement, the text its contract demands.

For every feasible pair (code path, contract path):
  V1  the outcomes agree (return / exception class);
  V2  every element that makes the code raise makes the contract raise, and conversely;
  V3  every statement the code emits is one the contract demands (each instance of each family);
  V4  every statement the contract demands is emitted by the code.
Statements are compared by the matcher of asp.py, which yields equations between their symbolic parts; the remaining
first-order formula goes to z3.
"""
import itertools
import time

import z3

from . import asp, loops
from .values import *
from .interp import exists, eliminate

TIMEOUT = 4000


class Ob:
    """One proof obligation and what became of it."""

    __slots__ = ("id", "status", "tag", "text", "detail", "model", "secs", "backend", "query", "binders")

    def __init__(self, id, status, tag=None, text="", detail="", model=None, secs=0.0, backend="z3", query=None, binders=()):
        self.id, self.status, self.tag, self.text, self.detail = id, status, tag, text, detail
        self.model, self.secs, self.backend, self.query, self.binders = model, secs, backend, query, binders

    def __repr__(self):
        return f"{self.status:8} {self.id} [{self.tag}] {self.text} {self.detail}"


def dict_facts(b):
    """What decoding guarantees about the keys of the board maps (postcondition of C02)."""
    if b.kind != "dict" or len(b.vars) != 4:
        return []
    r, c, d, pos = b.vars
    if d.sort() != DirSort or pos.sort() != StrSort:
        return []
    S = z3.StringVal
    C = DIRC["CENTER"]
    if b.name == "surface":
        return [d == C, pos == S("normal")]
    if b.name == "line":
        return [d == C, z3.Or([pos == S(x + y) for x in "udlr" for y in ("", "_1", "_2")]), uf("strlen", [pos], z3.IntSort()) >= 1]
    if b.name == "edge":
        return [pos == S("normal"), z3.Or([d == DIRC[x] for x in ("TOP", "LEFT", "DIAG_UP", "DIAG_DOWN")])]
    if b.name == "symbol":
        return [z3.Or([d == DIRC[x] for x in ("CENTER", "TOP", "LEFT", "TOP_LEFT")]),
                z3.Or([pos == S(x) for x in ("normal", "multiple", "nondango_mark")])]
    if b.name == "text":
        return [z3.Or([d == DIRC[x] for x in ("CENTER", "TOP", "LEFT", "TOP_LEFT")])]
    return []


_n = itertools.count()


def freshen(m_binders, m_guard, extra):
    """Rename binder variables; extra is a list of values to rename along."""
    sub = []
    for b in m_binders:
        for v in b.vars:
            sub.append((v, z3.FreshConst(v.sort(), "y")))
    bs = [b.subst(sub) for b in m_binders]
    return bs, [z3.substitute(g, *sub) if sub else g for g in m_guard], sub


def instantiations(src, dst_binders, limit=24):
    """Substitutions sending the binders `src` to binders of the same collection among dst."""
    opts = []
    for b in src:
        o = [d for d in dst_binders if d.kind == b.kind and d.name == b.name and len(d.vars) == len(b.vars)
             and all(x.sort() == y.sort() for x, y in zip(d.vars, b.vars))]
        if not o:
            return
        opts.append(o)
    for combo in itertools.islice(itertools.product(*opts), limit):
        yield [(v, w) for b, d in zip(src, combo) for v, w in zip(b.vars, d.vars)]


def sub_all(gs, s):
    return [z3.substitute(g, *s) if s else g for g in gs]


_wk_cache = {}


SOFT = ("rank#", "first#", "last#")


def abstract(fs):
    """Do the formulas mention positions (pyvc/loops.py), of which only the defining facts are known?"""
    todo, seen = list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith(SOFT):
            return True
        todo.extend(x.children())
    return False


class Prover:
    def __init__(self, pre):
        self.pre = list(pre) + list(BACKGROUND)
        self.calls = 0
        self.secs = 0.0

    def check(self, hyps, timeout=TIMEOUT):
        """unsat / sat / unknown of the conjunction."""
        t = time.time()
        self.calls += 1
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.pre)
        s.add(*hyps)
        s.add(*loops.facts(hyps))
        r = s.check()
        m = s.model() if r == z3.sat else None
        self.secs += time.time() - t
        return str(r), m

    def prove_raise(self, hyps, goals, qgoals=()):
        """The same, knowing also when the counts that occur are positive."""
        st, m = self.prove(hyps, goals, qgoals)
        more = loops.nonempty(list(hyps) + list(goals) + list(qgoals)) if st != "proved" else []
        if more:
            was = self.query
            if self.prove(list(hyps) + more, goals, qgoals)[0] == "proved":
                return "proved", None
            self.query = was
        return st, m

    def prove(self, hyps, goals, qgoals=()):
        """hyps ⊢ ∨ goals; qgoals are added (quantified) if the first try fails."""
        for g in goals:
            if z3.is_true(z3.simplify(g)):
                return "proved", None
        neg = [z3.Not(g) for g in goals]
        self.query = list(hyps) + neg
        r, m = self.check(list(hyps) + neg)
        if r == "unsat":
            return "proved", None
        if qgoals:
            r2, m2 = self.check(list(hyps) + neg + [z3.Not(g) for g in qgoals], TIMEOUT * 2)
            if r2 == "unsat":
                return "proved", None
            if r2 == "sat":
                return ("unknown" if abstract(self.query + list(qgoals)) else "failed"), m2
            return "unknown", m
        if r == "sat" and abstract(self.query):
            return "unknown", m  # about a position the solver knows nothing of
        return ("failed" if r == "sat" else "unknown"), m


def hyp_of(binders, guard):
    h = list(guard)
    for b in binders:
        h += dict_facts(b)
    return h


class RaiseFam:
    __slots__ = ("binders", "guard", "exc", "tag", "pc")

    def __init__(self, binders, guard, exc, tag=None):
        self.binders, self.guard, self.exc, self.tag = list(binders), list(guard), exc, tag
        self.pc = []


def raise_fams(path):
    out = []
    for r, pc in zip(path.raises, path.raise_pcs):
        for m in _flat_raise(r, [], []):
            m.pc = pc
            out.append(m)
    return out


def _flat_raise(r, bs, gs):
    if isinstance(r, Many):
        yield from _flat_raise(r.value, bs + r.binders, gs + r.guard)
    elif isinstance(r, One):
        yield from _flat_raise(r.value, bs, gs)
    elif isinstance(r, tuple):
        yield RaiseFam(bs, gs, r[0])
    else:
        raise Unsupported(f"raise payload {type(r).__name__}")


def exc_class(e):
    return e if e == "ValueError" else "ValueError" if e in ("UnicodeDecodeError", "JSONDecodeError") else "other"


def no_raise(rfs, binders):
    """Instances, at the given binders, of `no element makes it raise`."""
    out = []
    for f in rfs:
        if not f.binders:
            out.append(z3.Not(z3.And(f.guard)) if f.guard else z3.BoolVal(False))
            continue
        for s in instantiations(f.binders, binders):
            out.append(z3.Not(z3.And(sub_all(f.guard, s))))
    return out


def never(rfs):
    """No element makes it raise, for all elements."""
    out = []
    for f in rfs:
        g = z3.And(f.guard) if f.guard else z3.BoolVal(True)
        vs = [v for b in f.binders for v in b.vars]
        out.append(z3.ForAll(vs, z3.Not(g)) if vs else z3.Not(g))
    return out


def ex_goals(binders, guard, hb):
    """∃ binders. guard as goals: (quantifier-free candidates, quantified)."""
    bs, gs, sub = freshen(binders, guard, None)
    e = exists(bs, gs)
    if not z3.is_quantifier(e) and not _hasq(e):
        return [e], []
    qf = []
    for s in instantiations(binders, hb):
        qf.append(z3.And(sub_all(guard, s)))
    # partial: variables fixed by equations, the others mapped to hypotheses' binders
    for s in instantiations(bs, hb):
        pass
    return qf, [e]


def _hasq(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def compare(name, real, spec, pre, roles=None):
    """Obligations for code paths `real` against contract paths `spec`.

    Each path has .pc, .kind, .value (Rope or dict tag->Rope), .raises."""
    pr = Prover(pre)
    obs = []
    npairs, kind = 0, "full"
    for i, p in enumerate(real):
        for j, q in enumerate(spec):
            if len(real) * len(spec) > 1:
                kind = pair(pr, p, q)
                if not kind:
                    continue
            npairs += 1
            sid = f"{name}/p{i}.{j}" if len(real) * len(spec) > 1 else name
            obs += compare_pair(sid, p, q, pr, roles, kind)
    if not npairs:
        obs.append(Ob(f"{name}/vacuous", "unknown", "vacuity", "no feasible pair of paths"))
    return obs, pr


MARK_MAPS = ("surface", "line", "edge")


def in_roles(f, roles):
    """Is the family (statement or raise) about one of the roles?  Marks: it stems from what the user drew."""
    if roles is None or f.tag in roles:
        return True
    if isinstance(f, RaiseFam):
        if "require" in roles:
            return True
        return "mark" in roles and any(b.kind == "dict" and b.name in MARK_MAPS for b in f.binders)
    if "show" in roles and f.stmt[0] == "dir":
        return True
    return "mark" in roles and any(b.kind == "dict" and b.name in MARK_MAPS for b in f.binders)


def pair(pr, p, q):
    """Is there a board on which both paths are taken; or one on which both would be, had neither raised before?"""
    if pr.check(p.pc + q.pc, 2000)[0] != "unsat":
        return "full"
    if (p.survivors or q.survivors) and (p.raises or q.raises) and pr.check(p.branch + q.branch, 2000)[0] != "unsat":
        return "raises"
    return None


def compare_pair(sid, p, q, pr, roles=None, what="full"):
    """A condition that holds on a path only because the board was not rejected before must not be used to show
    that the board is rejected: these obligations have the branches of the paths (Path.branch) as hypotheses."""
    obs = []
    branch = p.branch + q.branch
    pcs = list(p.pc) + list(q.pc)
    pk = "normal" if p.kind == "normal" else "raise"
    qk = "normal" if q.kind == "normal" else "raise"
    rr, sr = raise_fams(p), raise_fams(q)
    t0 = time.time()

    def add(kind, status, tag, text, m=None, detail="", binders=()):
        nonlocal t0
        t = time.time()
        bad = status != "proved"
        obs.append(Ob(f"{sid}/{kind}", status, tag, text, detail, m, t - t0, query=getattr(pr, "query", None) if bad else None, binders=binders if bad else ()))
        t0 = t

    if pk == "raise":
        p_exc = exc_class(p.value[0]) if isinstance(p.value, tuple) else "other"
    if qk == "raise":
        q_exc = exc_class(q.value[0]) if isinstance(q.value, tuple) else "other"
    # V1 ------------------------------------------------------------------------------------------------
    if pk == "raise" and qk == "raise":
        ok = p_exc == q_exc
        add("outcome", "proved" if ok else "failed", "require", f"raises {p_exc}", detail="" if ok else f"contract: {q_exc}")
        return obs
    if pk != qk:
        # one side raises outright: the other must raise in a loop on every such board
        fams = sr if pk == "raise" else rr
        goals, qg = [], []
        for f in fams:
            a, b = ex_goals(f.binders, f.guard, [])
            goals += a
            qg += b
        st, m = pr.prove_raise(branch, goals or [z3.BoolVal(False)], qg)
        add("outcome", st, "require", f"code {pk}s, contract {qk}s", m)
        return obs
    # V2 ------------------------------------------------------------------------------------------------
    for kind, xs, ys in (("raise-allowed", rr, sr), ("raise-demanded", sr, rr)):
        for k, f in enumerate(xs):
            if not in_roles(f, roles):
                continue
            hyps = branch + f.pc + hyp_of(f.binders, f.guard)
            goals, qg = [], []
            same = [g for g in ys if exc_class(g.exc) == exc_class(f.exc)]
            for g in same:
                a, b = ex_goals(g.binders, g.guard, f.binders)
                goals += a
                qg += b
            st, m = pr.prove_raise(hyps, goals or [z3.BoolVal(False)], qg)
            add(f"{kind}{k}", st, "require", f"{f.exc} if {_short(f.binders, f.guard)}", m, "", f.binders)
    if what == "raises":
        return obs
    # V3, V4 --------------------------------------------------------------------------------------------
    rf = fam_list(p.value)
    sf = fam_list(q.value)
    rf, sf = asp.canon_shapes(rf), asp.canon_shapes(sf)
    index_s, index_r = {}, {}
    for f in sf:
        index_s.setdefault(asp.skc(f.stmt), []).append(f)
    for f in rf:
        index_r.setdefault(asp.skc(f.stmt), []).append(f)
    plain = lambda fs: {asp.show(f.stmt): f for f in fs if not f.binders and not f.guard}
    ps, prl = plain(sf), plain(rf)
    for kind, xs, idx, pl in (("emits-allowed", rf, index_s, ps), ("emits-demanded", sf, index_r, prl)):
        for k, f in enumerate(xs):
            if not in_roles(f, roles):
                continue
            text = asp.show(f.stmt)
            tag = f.tag
            if not f.binders and not f.guard and text in pl:
                add(f"{kind}{k}", "proved", tag or pl[text].tag, text, None, "syntactic")
                continue
            hyps = pcs + hyp_of(f.binders, f.guard) + no_raise(rr, f.binders) + no_raise(sr, f.binders)
            goals, qg = [], []
            ntpl = 0
            for g in idx.get(asp.skc(f.stmt), ()):
                for eqs in asp.matches(f.stmt, g.stmt):
                    ntpl += 1
                    tag = tag or g.tag
                    a, b = ex_goals(g.binders, list(g.guard) + [x == y for x, y in eqs], f.binders)
                    goals += a
                    qg += b
            st, m = pr.prove(hyps, goals or [z3.BoolVal(False)], qg)
            if st != "proved" and (rr or sr) and (goals or qg):
                was = getattr(pr, "query", None)
                st2, m2 = pr.prove(hyps + never(rr + sr), goals or [z3.BoolVal(False)], qg)
                if st2 == "proved":
                    st, m = st2, m2
                else:
                    pr.query = was
            if st != "proved" and not tag:
                tag = guess_tag(f, sf)
            add(f"{kind}{k}", st, tag, text + (f"   for {_short(f.binders, f.guard)}" if f.binders or f.guard else ""), m,
                "" if ntpl else "no statement of this form", f.binders)
    return obs


def guess_tag(f, sf):
    names = {b.name for b in f.binders if b.kind == "dict"}
    if f.stmt[0] == "dir":
        return "show"
    for g in sf:
        if g.tag == "mark" and names & {b.name for b in g.binders}:
            return "mark"
    return "clue" if names else "rule"


def fam_list(v):
    if isinstance(v, dict):
        out = []
        for t, x in v.items():
            out += asp.families(x, t)
        return out
    return asp.families(v)


def _short(bs, gs):
    s = f"{bs} : {gs}"
    return " ".join(s.split())[:400]
