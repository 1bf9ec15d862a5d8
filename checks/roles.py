"""C07, C15, C16: the statements of one role over all puzzle types, and end-to-end comparisons with clingo."""
import copy
import json
import random
import re
import time

from . import solvercheck
from .common import *

CATS = ("shade", "loop", "num", "region", "var")


def run(r, prop):
    names = solvercheck.names_of(CATS)
    r.extra["puzzle_types"] = len(names)
    missing = sorted(solvercheck.ALL - set(names))
    for n in missing:
        r.bounded.append({"function": f"solver.{n}.solve", "why": "a puzzle type without a written contract", "bound": "not covered"})
    {"C07": show, "C15": marks, "C16": require}[prop](r, names)


def first(xs):
    return next((x for x in xs if x), None)


# ---------------------------------------------------------------------------------------------------- C15
def _marks(job):
    from . import marks as M

    return M.compare(*job)


def marks(r, names):
    t = tier()
    r.extra["rule"] = ("small boards of each type with all answers enumerated by clingo (at most 400), one mark added; the marked board's answers must be exactly the unmarked "
                       "board's answers whose drawing (store_solution of the displayed atoms) agrees with the mark; non-trivial: a mark the type supports")
    r.assume("which kinds of marks a puzzle type supports is what its contract in specs/ demands statements for; a mark outside the board is no part of the answer")
    solvercheck.check(r, names, {"mark"}, sample=3)
    n, secs = (40, 7) if t == "quick" else (400, 40)
    out = solvercheck.run_pool(_marks, [(x, SEED, n, secs) for x in names], r, "marks")
    done = [x for x in out if x["tried"]]
    r.bounded_cases += sum(x["tried"] for x in out)
    r.extra["distinct_nontrivial"] = sum(x["tried"] for x in out)
    r.extra["puzzle_types_compared_with_clingo"] = len(done)
    r.samples += [x["sample"] for x in done if x["sample"]][:8]
    for x in sorted(out, key=lambda x: x["name"]):
        if x["diff"]:
            r.violation(x["name"], f"solver.{x['name']}: {x['diff']['what']}", {"function": f"solver.{x['name']}.solve", "input": x["diff"]}, True)


# ---------------------------------------------------------------------------------------------------- C16
def _fuzz(job):
    name, seed, n, secs = job
    from clingo.control import Control
    from pyvc import concrete

    out = {"name": name, "tried": 0, "rejected": 0, "accepted": 0, "diff": None}
    t0 = time.time()
    for b in concrete.boards(name, f"fuzz{seed}", n):
        if time.time() - t0 > secs:
            break
        out["tried"] += 1
        p = concrete.run_real(name, b)
        if p[0] == "raise":
            out["rejected"] += 1
            if p[1] not in ("ValueError", "Timeout"):
                out["diff"] = {"board": b, "what": f"the board is rejected by {p[1]}: {p[2]}"}
                break
            continue
        out["accepted"] += 1
        err = []
        try:
            Control([], logger=lambda code, m: err.append(m)).add("base", [], p[1])
        except RuntimeError as e:
            out["diff"] = {"board": b, "what": f"the board is accepted, and its program is invalid: {(err[0] if err else str(e)).strip()}"}
            break
    return out


def require(r, names):
    t = tier()
    r.extra["rule"] = "the pinned example boards, mutations of them and random boards up to 5x5 with unusual values, directions and positions; non-trivial: boards that are rejected"
    solvercheck.check(r, names, {"require"}, sample=3)
    n, secs = (60, 6) if t == "quick" else (800, 40)
    for k in range(1 if t == "quick" else 2):
        out = solvercheck.run_pool(_fuzz, [(x, SEED + k, n, secs) for x in names], r, "boards")
        r.bounded_cases += sum(x["tried"] for x in out)
        r.extra["distinct_nontrivial"] = r.extra.get("distinct_nontrivial", 0) + sum(x["rejected"] for x in out)
        for x in sorted(out, key=lambda x: x["name"]):
            if x["diff"]:
                r.violation(x["name"], f"solver.{x['name']}: {x['diff']['what']}", {"function": f"solver.{x['name']}.solve", "input": x["diff"]}, True)
    helpers(r)


def helpers(r):
    """validate_type, validate_direction, fail_false: raise ValueError exactly when they should, for all arguments."""
    import z3

    from noqx.puzzle import Direction
    from noqx.rule import helper
    from pyvc import match
    from pyvc.interp import Interp
    from pyvc.values import DirSort, StrSort, Unsupported, Val

    v, i, s = z3.Const("value", Val), z3.Int("n"), z3.Const("s", StrSort)
    d, t = z3.Const("d", DirSort), z3.Const("target", DirSort)
    b = z3.Bool("express")
    isint = lambda k: z3.And(Val.is_VInt(v), Val.ival(v) == k)
    isstr = lambda k: z3.And(Val.is_VStr(v), Val.sval(v) == k)
    lists = [("none", [], z3.BoolVal(True)), ("one", [i], z3.Not(isint(i))), ("two", [i, s], z3.Not(z3.Or(isint(i), isstr(s)))), ("letters", (s, "?", i), z3.Not(z3.Or(isint(i), isstr(s), isstr(z3.StringVal("?")))))]
    cases = [("validate_direction", "any", [z3.Int("r"), z3.Int("c"), d, t], d != t), ("validate_direction", "default", [z3.Int("r"), z3.Int("c"), d], d != lift_dir(Direction.CENTER)),
             ("fail_false", "condition", [b, "message"], z3.Not(b)), ("validate_type", "none", [None, "int"], z3.BoolVal(True)), ("validate_type", "none-list", [None, ["a"]], z3.BoolVal(True)),
             ("validate_type", "text", [v, s], z3.Not(isstr(s))), ("validate_type", "number", [v, i], z3.Not(isint(i))),
             *[("validate_type", f"list-{n}", [v, xs], c) for n, xs, c in lists]]
    bad = {}
    for fn, label, args, raises in cases:
        f = getattr(helper, fn, None)
        if f is None:
            continue
        name = f"noqx.rule.helper.{fn}"
        try:
            it = Interp(axioms=[], overrides={}, fuel=20000)
            outs, _ = it.explore(lambda: it.call(f, list(args), {}))
        except Unsupported as e:
            bad[name] = f"outside the fragment: {e}"
            continue
        pr = match.Prover([])
        n = ok = 0
        for pc, kind, value, reg in outs:
            goal = raises if kind == "raise" else z3.Not(raises)
            st, m = pr.prove(list(pc), [goal])
            n += 1
            if kind == "raise" and value[0] != "ValueError":
                st = "failed"
            ok += st == "proved"
            if st == "failed":
                what = f"{fn} ({label}): {'raises ' + str(value[0]) if kind == 'raise' else 'accepts'} although the contract says otherwise"
                r.open.append(what)
                r.violation(f"{fn}/{label}", what, {"function": name, "failed_obligations": [what], "model": str(m)}, False)
            elif st != "proved":
                bad[name] = f"{label}: not discharged"
        r.add(n, ok, "z3", pr.calls, pr.secs)
        if name not in r.functions and name not in bad:
            r.functions.append(name)
    for k, w in bad.items():
        if k in r.functions:
            r.functions.remove(k)
        r.bounded.append({"function": k, "why": w, "bound": "executed inside every solver's proof only"})


def lift_dir(x):
    from pyvc.values import lift

    return lift(x)


# ---------------------------------------------------------------------------------------------------- C07
def _content(b):
    """Editor text of an empty board of the size of b."""
    from . import drawings as D

    p = D.Board(random.Random(0), b["name"], answer=False)
    p.row, p.col, p.margin, p.kind = b["row"], b["col"], (1, 1, 1, 1), "square"
    p.layers = {3: p.blank(), 4: p.blank()}
    p.parts = [f"square,{p.width()},{p.height()},38,0,1,1", "[1,1,1,1]", "[0,0,0,0]", p.dump(3), p.dump(4), "x", "y"]
    return p


def _drawable(job):
    from pyvc import concrete

    try:
        return concrete.guarded(lambda: _drawable_(job), 4 * job[3] + 60)
    except concrete.TooLong:
        return {"name": job[0], "tried": 0, "atoms": 0, "diff": None, "sample": None, "sigs": []}


def _drawable_(job):
    """Every atom a ground program could display is converted and encoded."""
    name, seed, n, secs = job
    import logging

    from clingo.control import Control
    from noqx import manager
    from noqx.puzzle.penpa import PenpaPuzzle
    from pyvc import concrete
    from . import drawings as D

    logging.disable(logging.CRITICAL)
    if not manager.modules:
        os.chdir(REPO)
        manager.load_solvers("solver")
    out = {"name": name, "tried": 0, "atoms": 0, "diff": None, "sample": None, "sigs": []}
    t0 = time.time()
    v = concrete.Vocab(name, concrete.pinned().get(name, []))
    rnd = random.Random(f"show/{name}/{seed}")
    small = sorted(concrete.pinned().get(name, []), key=lambda b: b["row"] * b["col"])[:1]
    k = 0
    while k < n and time.time() - t0 < secs:
        k += 1
        b = concrete.fix_params(small[0], v) if k == 1 and small else concrete.sparse_board(v, rnd, k % 5)
        p = concrete.run_real(name, b)
        if p[0] != "normal":
            continue
        sigs = sorted(concrete.shown_sigs(p[1]))
        info = {"board": b, "puzzle": name}
        if not sigs:
            out["diff"] = {**info, "what": "no kind of atom is displayed"}
            break
        ctl = Control(["--project=show"], logger=lambda *a: None)
        try:
            with concrete.limit(20):
                ctl.add("base", [], p[1])
                ctl.ground([("base", [])])
        except (RuntimeError, concrete.TooLong):
            continue
        out["tried"] += 1
        atoms = [str(a.symbol) for s, m in sigs for a in ctl.symbolic_atoms.by_signature(s, int(m))]
        if k > 1:
            # what answers really display, and any displayed term
            ms, _, err = concrete.models(p[1], 3, 2)
            atoms = sorted({a for x in ms for a in x} | set(rnd.sample(atoms, min(len(atoms), 150)))) if not err else atoms
        else:
            atoms = rnd.sample(atoms, min(len(atoms), 400))
        out["sigs"] = [f"{s}/{m}" for s, m in sigs]
        board = _content(b)
        puzzle = PenpaPuzzle(name, board.content(), b["param"])
        puzzle.decode()
        seen = set()
        for a in atoms:
            out["atoms"] += 1
            try:
                s = manager.store_solution(puzzle, a)
                els = [(m, q) for m in ("surface", "text", "symbol", "edge", "line") for q in getattr(s, m)]
                args = a.split("(", 1)[1].split(",")
                rc = (int(args[0]), int(args[1].rstrip(")")))
                if len(els) != 1 or (els[0][1].r, els[0][1].c) != rc:
                    out["diff"] = {**info, "atom": a, "what": f"the displayed atom {a} is converted to {els}"}
                    break
                form = (a.split("(")[0], re.sub(r"\d+", "", ",".join(args[2:])), els[0][0])
                if form in seen and len(seen) > 40:
                    continue
                seen.add(form)
                text = s.encode()
                doc = json.loads(D.long(D.unpack(text)[4]))
                new = [(m, x) for m in ("surface", "number", "symbol", "edge", "line") for x in doc[m]]
                if len(new) != 1:
                    out["diff"] = {**info, "atom": a, "what": f"the displayed atom {a} is drawn as {new}"}
                    break
            except Exception as e:
                out["diff"] = {**info, "atom": a, "what": f"the displayed atom {a} cannot be drawn: {type(e).__name__}: {e}"}
                break
        if out["diff"]:
            # the ground program over-approximates: does an answer display the atom?
            if concrete.models(p[1], 1, 10, f"\n:- not {out['diff']['atom']}.\n")[0]:
                break
            out["diff"] = None
        try:
            ms = concrete.models(p[1], 1, 2)[0]
            if ms:
                manager.store_solution(puzzle, " ".join(sorted(ms[0]))).encode()
                if out["sample"] is None:
                    out["sample"] = {"puzzle": name, "rows": b["row"], "cols": b["col"], "answer": sorted(ms[0])[:12]}
        except Exception as e:
            out["diff"] = {**info, "atom": " ".join(sorted(ms[0])), "what": f"an answer cannot be drawn: {type(e).__name__}: {e}"}
            break
    return out


UNDERSTOOD = [  # (pattern, arities): kinds of atoms the conversion's contract (C06) has a case for
    (r"edge_(top|left|diag_up|diag_down)", (2,)), (r"grid_(direction|in|out)", (3, 4)), (r"number\w*", (3,)), (r"content\w*", (3,)), (r"triangle", (3,)), (r"gray|black", (2,)),
    (r"[a-z]\w*__\d+", (2,)), (r"battleship_[BGW]\w*", (2,)),
]


def _named(st, path, match):
    """The display of atoms named after a symbol of the board, when all its names begin alike: one of these."""
    import z3

    from pyvc import asp
    from pyvc.run import PRE
    from pyvc.values import Hole

    holes = [p.term for p in st[2] if isinstance(p, Hole)] if st[0] == "dir" and st[1] == "#show" and len(st) == 4 else []
    if len(holes) != 1 or [p for p in st[2] if not isinstance(p, Hole)]:
        return None
    pr = match.Prover(PRE)
    rs = match.raise_fams(path)
    if pr.prove(list(path.pc) + match.never(rs), [z3.PrefixOf(z3.StringVal("battleship"), holes[0])])[0] == "proved":
        return asp.show((*st[:2], ("battleship_B",), st[3]))
    return None


def _shown(name):
    """The displayed kinds of atoms on every path of the contract."""
    from pyvc import asp, match, solvers

    _, paths = solvers.run_spec(name)
    out = []
    for i, p in enumerate(paths):
        if p.kind == "normal":
            out.append((i, [_named(f.stmt, p, match) or asp.show(f.stmt) for f in match.fam_list({"show": p.value["show"]})]))
    return name, out


def show(r, names):
    t = tier()
    r.extra["rule"] = ("every atom of a displayed kind in the ground program of sample boards (an over-approximation of what answers display) is converted by store_solution and encoded; "
                       "non-trivial: an atom")
    r.assume("what the conversion and the encoding do with an atom is C06 and C03; this check adds that displayed atoms are of the kinds they accept")
    solvercheck.check(r, names, {"show"}, sample=3)
    n = ok = 0
    for x in solvercheck.run_pool(_try(_shown), [(y,) for y in names], r, "displays"):
        if isinstance(x, str):
            continue
        name, paths = x
        for i, texts in paths:
            n += 1
            bad = [y for y in texts if not understood(name, y)]
            if bad or not texts:
                r.errors.append(f"{name}: the contract displays {bad or 'nothing'}")
            else:
                ok += 1
    r.add(n, ok, "table of the conversion's cases")
    out = solvercheck.run_pool(_drawable, [(x, SEED, *((6, 8) if t == "quick" else (60, 60))) for x in names], r, "draw")
    r.bounded_cases += sum(x["atoms"] for x in out)
    r.extra["distinct_nontrivial"] = sum(x["atoms"] for x in out)
    r.samples += [x["sample"] for x in out if x["sample"]][:8]
    for x in sorted(out, key=lambda x: x["name"]):
        if x["diff"]:
            r.violation(x["name"], f"solver.{x['name']}: {x['diff']['what']}", {"function": f"solver.{x['name']}.solve", "input": x["diff"]}, True)


class _try:
    def __init__(self, f):
        self.f = f

    def __call__(self, a):
        from pyvc.values import Unsupported

        try:
            return self.f(*a)
        except Unsupported as e:
            return f"{a[0]}: {e}"


def understood(name, text):
    m = re.match(r"#show\s+(.+?)\s*/\s*(\d+)\s*\.?$", text.strip())
    if not m:
        return False
    p, k = m.group(1), int(m.group(2))
    return any(re.fullmatch(x, p) and k in a for x, a in UNDERSTOOD)
