"""C11-C14: every function of noqx.rule produces, for all arguments, the program text its contract demands."""
import importlib
import itertools

import z3

from .common import *
from .solvercheck import run_pool


def _cases(prop):
    from specs import libcases

    seen = {}
    for c in libcases.cases():
        if c[0] == prop and c[1] not in seen:
            seen[c[1]] = c
    return list(seen.values())


def _ints(args, kw, spec):
    """Integer constants in the arguments."""
    found = {}

    def walk(x):
        if isinstance(x, z3.ExprRef):
            if z3.is_int(x) and z3.is_const(x) and not z3.is_int_value(x):
                found[str(x)] = x
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)

    walk(args)
    walk(kw)
    return found


def _sub(x, m):
    if isinstance(x, z3.ExprRef):
        v = m.get(str(x))
        return v if v is not None else x
    if isinstance(x, list):
        return [_sub(y, m) for y in x]
    if isinstance(x, tuple):
        return tuple(_sub(y, m) for y in x)
    if isinstance(x, dict):
        return {k: _sub(y, m) for k, y in x.items()}
    from pyvc.values import Cells, SDict
    from noqx.puzzle import Direction, Point

    if isinstance(x, Cells):
        return [(0, 0), (0, 1), (1, 1)]
    if isinstance(x, SDict):
        return {Point(0, 1, Direction.LEFT): True, Point(0, 0, Direction.TOP): True, Point(1, 0, Direction.TOP): True, Point(1, 0, Direction.LEFT): False, Point(2, 1, Direction.TOP): True}
    return x


def _native(case, m):
    """(outcome of the code, outcome of the contract) on concrete arguments."""
    from pyvc.concrete import outcome
    from specs.libcases import Call

    _, _, fn, args, kw, spec, _ = case
    mod, f = fn.rsplit(".", 1)
    fobj = getattr(importlib.import_module(mod), f)
    p = outcome(lambda: fobj(*_sub(list(args), m), **_sub(dict(kw), m)))
    q = outcome(lambda: spec.f(*_sub(list(spec.args), m), **_sub(dict(spec.kw), m))) if isinstance(spec, Call) else ("raise", "ValueError", "")
    return p, q


def _one(case):
    from pyvc import match
    from pyvc.interp import Interp
    from pyvc.run import Path, run_paths
    from pyvc.values import Unsupported
    from specs.libcases import Call

    prop, cid, fn, args, kw, spec, pre = case
    mod, f = fn.rsplit(".", 1)
    fobj = getattr(importlib.import_module(mod), f)
    res = {"id": cid, "fn": fn, "n": 0, "ok": 0, "syn": 0, "calls": 0, "secs": 0.0, "open": [], "why": "", "diff": None, "tried": 0}
    sat = []
    try:
        _, rp = run_paths(lambda it: it.call(fobj, list(args), dict(kw)), [], Interp(axioms=pre, overrides={}))
        if isinstance(spec, Call):
            _, sp = run_paths(lambda it: it.call(spec.f, list(spec.args), dict(spec.kw)), [], Interp(axioms=pre, overrides={}))
        else:
            sp = [Path([], "raise", ("ValueError", ""), [])]
        obs, pr = match.compare(cid, rp, sp, pre)
        res["n"], res["ok"] = len(obs), sum(o.status == "proved" for o in obs)
        res["syn"] = sum(o.status == "proved" and o.detail == "syntactic" for o in obs)
        res["calls"], res["secs"] = pr.calls, pr.secs
        bad = [o for o in obs if o.status != "proved"]
        res["open"] = [f"{o.id} {o.status}: {o.text[:300]} {o.detail}" for o in bad]
        sat = [o for o in bad if o.status == "failed"]
        if not bad and obs:
            return res
        if not obs:
            res["why"] = "no obligation was generated"
    except Unsupported as e:
        res["why"] = f"{getattr(e, 'where', '')} {e}".strip()
    except Exception as e:
        res["why"] = f"{type(e).__name__}: {e}"
    # native: counter-models first, then a spread of values
    ints = _ints(args, kw, spec)
    envs = []
    for o in sat:
        if o.model is not None:
            envs.append({k: o.model.eval(v, model_completion=True).as_long() for k, v in ints.items()})
    names = sorted(ints)
    vals = [2, 1, 3, 0, 5, -1, 4]
    for k in range(20):
        envs.append({n: max(1, vals[(k * 3 + i * (k + 1)) % 7]) if n in ("h", "w") else vals[(k + i * (k + 1)) % 7] for i, n in enumerate(names)})
    envs = [e for e in envs if all(e.get(x, 1) >= 1 for x in ("h", "w")) and all(abs(v) < 10**6 for v in e.values()) and e.get("h", 1) <= 30 and e.get("w", 1) <= 30]
    from pyvc.concrete import TooLong, difference, guarded
    from pyvc import semantics

    hits = []
    seen = set()
    for e in envs:
        key = tuple(sorted(e.items()))
        if key in seen:
            continue
        seen.add(key)
        res["tried"] += 1
        p, q = _native(case, e)
        if p[0] == "raise" and q[0] == "raise" and p[1] == "ValueError" == q[1]:
            continue
        if q[0] == "raise" and q[1] != "ValueError":
            continue
        if p[0] != q[0] or p[0] == "raise":
            hits.append((e, str(p[:2])[:300], str(q[:2])[:300], ("the code " + (f"raises {p[1]}" if p[0] == "raise" else "accepts the arguments"), [])))
            break
        if not isinstance(p[1], str):
            hits.append((e, repr(p[1])[:300], repr(q[1])[:300], None))
            continue
        try:
            left, right = difference(p[1], {"rule": q[1]})
        except Exception as x:
            left, right = [(None, f"unparsable: {x}")], []
        if left or right:
            try:
                w = guarded(lambda: semantics.differ(p[1], q[1]), 60) if len(hits) < 6 else None
            except TooLong:
                w = None
            hits.append((e, [x for _, x in left][:6], [x for _, x in right][:6], w))
            if w:
                break
    if hits:
        res["diff"] = next((h for h in hits if h[3]), hits[0])
    res["refuted"] = bool(sat) and not hits and res["tried"] > 0
    return res


def _chunk(job):
    prop, i = job
    return [_one(c) for c in _cases(prop)[i::32]]


def run(r, prop):
    cs = _cases(prop)
    chunks = [(prop, i) for i in range(min(32, len(cs)))]
    fns, bad = {}, {}
    for out in run_pool(_chunk, chunks, r, prop):
        for x in out:
            r.add(x["n"], x["ok"] - x["syn"], "z3", x["calls"], x["secs"])
            r.add(0, x["syn"], "identity of statements")
            fns.setdefault(x["fn"], 0)
            fns[x["fn"]] += 1
            r.bounded_cases += x["tried"]
            r.open += x["open"][:3]
            if x["diff"] or x["why"] or x["open"]:
                bad.setdefault(x["fn"], []).append(x)
    r.extra["cases"] = len(cs)
    r.extra["cases_per_function"] = fns
    r.functions = sorted(f for f in fns if f not in bad)
    for fn, xs in sorted(bad.items()):
        hit = [x for x in xs if x["diff"]]
        wit = [x for x in hit if x["diff"][3]]
        if hit:
            x = (wit or hit)[0]
            e, left, right, w = x["diff"]
            r.violation(fn, f"{x['id']} with {e}: code {str(left)[:200]} / contract {str(right)[:200]}",
                        {"function": fn, "case": x["id"], "values": e, "only_code": left, "only_contract": right, "witness": w, "failed_obligations": x["open"][:10],
                         "cases_failing": len(hit)}, bool(w))
        else:
            r.bounded.append({"function": fn, "why": xs[0]["why"] or xs[0]["open"][0], "cases": sum(x["tried"] for x in xs), "bound": "about twenty value combinations per case"})
    r.assume("predicate and colour names are ordinary (the contracts enumerate black, not gray, white, ...)",
             "numbers of cells, ids and targets are arbitrary integers (proved symbolically); option values are enumerated completely")
    from . import meaning

    meaning.run(r, prop)
