"""Checks over the puzzle types: solver.<name>.solve against its contract in specs/."""
import os
from concurrent.futures import ProcessPoolExecutor, as_completed
from multiprocessing import get_context

from .common import *

SECONDS = {"quick": 150, "thorough": 600}


def names_of(cats):
    """Puzzle types by category as contracted (the contract files decide, not the code under check)."""
    import importlib

    out = []
    for c in cats:
        m = importlib.import_module(f"specs.{c}")
        for k, f in sorted(vars(m).items()):
            n = k.rstrip("_")
            if callable(f) and getattr(f, "__module__", "") == m.__name__ and n in ALL:
                out.append(n)
    return out


ALL = {f[:-3] for f in os.listdir(f"{REPO}/solver") if f.endswith(".py") and f != "__init__.py"}


def _deduce(a):
    name, secs, roles = a
    from pyvc import worker

    return worker.verify(name, secs, roles)


def _settle(a):
    name, res, n, secs, want = a
    from pyvc import worker

    return worker.settle(name, res, SEED, n, secs, want)


def pool():
    return ProcessPoolExecutor(WORKERS, mp_context=get_context("fork"))


def run_pool(fn, jobs, r, what):
    out = []
    with pool() as ex:
        fs = {ex.submit(fn, j): j for j in jobs}
        for f in as_completed(fs):
            try:
                out.append(f.result())
            except Exception as e:
                r.errors.append(f"{what} {fs[f][0]}: {type(e).__name__}: {e}")
    return out


def check(r, names, roles=None, sample=4):
    """Verify the named puzzle types; roles restricts to statements of some roles."""
    t = tier()
    r.assume(*BOARD_ASSUME)
    results = run_pool(_deduce, [(n, SECONDS[t], roles) for n in names], r, "verify")
    results.sort(key=lambda x: x["name"])
    todo = []
    for x in results:
        r.add(x["obligations"], x["proved"] - x["syntactic"], "z3", x["calls"], x["solver_s"])
        r.add(0, x["syntactic"], "identity of statements")
        for o in x["open"]:
            r.open.append(f"{o['id']} [{o['role']}] {o['status']}: {o['text']} {o['detail']}")
        if x["status"] == "proved":
            r.functions.append(f"solver.{x['name']}.solve")
            if sample or t == "thorough":
                todo.append((x["name"], x, sample if t == "quick" else 40, 20, roles))
        else:
            todo.append((x["name"], x, 2500 if t == "quick" else 20000, 60 if t == "quick" else 240, roles))
    for x in run_pool(_settle, todo, r, "compare"):
        r.bounded_cases += x["tried"]
        judge(r, x, t)
    r.bounded.sort(key=lambda b: b["function"])
    return results


def judge(r, x, t):
    """The verdict on one puzzle type."""
    n = x["name"]
    wit = [d for d in x["diffs"] if d["witness"]]
    proved = x["status"] == "proved"
    if x["diffs"]:
        d = (wit or x["diffs"])[0]
        what = f"solver.{n}: " + (d["detail"] if d["kind"] == "require" else "the generated program is not the demanded one: "
                                  + "; ".join(["+ " + s[:140] for _, s in d["only_code"][:2]] + ["- " + s[:140] for _, s in d["only_contract"][:2]]))
        r.violation(n, what, {"function": f"solver.{n}.solve", "difference": d, "failed_obligations": x["open"][:12], "deduction": x["status"] + (f" ({x['why']})" if x["why"] else "")}, bool(d["witness"]))
        if proved:
            r.errors.append(f"{n}: proved, yet a concrete board differs (engine unsound?)")
        return
    if proved:
        return
    bad = [o for o in x["open"] if o["status"] == "failed" and o["id"] not in x["agreed"]]
    solid = [o for o in bad if x["obligations"] and x["proved"] / x["obligations"] > 0.5]
    r.bounded.append({"function": f"solver.{n}.solve", "why": x["why"] or f"{len(x['open'])} obligations not discharged", "boards_compared": x["tried"], "bound": "the pinned example boards, mutations of them, and random boards up to 5x5"})
    if x["status"] == "open" and solid and not all(o["id"] in x["agreed"] for o in solid):
        o = solid[0]
        r.violation(n, f"solver.{n}: obligation {o['id']} fails: {o['text'][:200]}", {"function": f"solver.{n}.solve", "failed_obligations": bad[:20], "boards_compared": x["tried"]}, False)
