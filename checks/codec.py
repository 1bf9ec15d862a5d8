"""C01-C06: the board codec against its contracts (specs/codec.py), for arbitrary boards; and on concrete boards."""
import json
import random
import signal
import time
import traceback

import z3

from .common import *
from .solvercheck import run_pool

LIMIT = {"quick": 400, "thorough": 800}
NAMES = ("sudoku", "masyu", "hashi", "nondango", "x")


class Deadline(BaseException):
    pass


def _stop(*_):
    raise Deadline()


# ---------------------------------------------------------------------------------------------------- deduction
def _deduce(job):
    which, secs = job
    from pyvc import codec, effects, match
    from pyvc.values import Unsupported

    res = {"which": which, "n": 0, "ok": 0, "calls": 0, "secs": 0.0, "open": [], "why": "", "failed": 0}
    signal.signal(signal.SIGALRM, _stop)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        if which == "index":
            obs, pr = index_obligations()
        elif which == "size":
            _, a = codec.explore(codec.code_decode)
            _, b = codec.explore(codec.spec_decode)
            for p in a + b:
                if p.kind != "raise":
                    p.value.maps = {}
            obs, pr = effects.compare(which, a, b, codec.PRE)
        elif which.startswith("refine:"):
            n = which[7:]
            _, a = codec.explore(codec.code_refine(n))
            _, b = codec.explore(codec.spec_refine(n))
            obs, pr = effects.compare(which, a, b, codec.PRE)
        elif which == "given":
            _, a = codec.explore(codec.code_encode)
            _, b = codec.explore(codec.spec_encode)
            obs, pr = given_obligations(a)
            more, pr2 = effects.compare("encode", a, b, codec.PRE)
            obs += [o for o in more if "/writes-demanded-" in o.id or "/outcome" in o.id]
            pr.calls += pr2.calls
            pr.secs += pr2.secs
        else:
            kw = dict(empty_answer=True, polydiv=True) if which == "roundtrip" else {}
            _, a = codec.explore(getattr(codec, f"code_{which}"), **kw)
            _, b = codec.explore(getattr(codec, f"spec_{which}"), **kw)
            obs, pr = effects.compare(which, a, b, codec.PRE)
        res["n"], res["ok"] = len(obs), sum(o.status == "proved" for o in obs)
        res["calls"], res["secs"] = pr.calls, pr.secs
        bad = [o for o in obs if o.status != "proved"]
        res["failed"] = sum(o.status == "failed" for o in bad)
        res["open"] = [f"{o.id} {o.status}: {o.text[:400]} {o.detail[:300]}" for o in bad]
        if not obs:
            res["why"] = "no obligation was generated"
    except Deadline:
        res["why"] = f"no result within {secs} s"
    except Unsupported as e:
        res["why"] = f"outside the fragment: {getattr(e, 'where', '')} {e}".strip()
    except Exception as e:
        res["why"] = f"{type(e).__name__}: {e} at {traceback.format_exc().splitlines()[-3].strip()}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return res


def given_obligations(paths):
    """No entry is written for an element whose place has one in the question."""
    from pyvc import codec, match

    pr = match.Prover(codec.PRE)
    obs = []
    _, specs = codec.explore(codec.spec_given)
    for i, p in enumerate(paths):
        for j, q in enumerate(specs):
            if "raise" in (p.kind, q.kind):
                continue
            if pr.check(p.pc + q.pc, 2000)[0] == "unsat":
                continue
            for name, hyps, text in codec.overdrawn(p, q):
                st, m = pr.prove(hyps, [z3.BoolVal(False)])
                obs.append(match.Ob(f"given/p{i}.{j}/{name}", st, name, text, "", m, 0.0))
    return obs, pr


def index_obligations():
    from pyvc import codec, effects

    _, a = codec.explore(codec.code_index, pre=codec.GEO, polydiv=True)
    _, b = codec.explore(codec.spec_index, pre=codec.GEO, polydiv=True)
    return effects.compare("index", a, b, codec.GEO, facts=codec.euclid(a + b))


# ---------------------------------------------------------------------------------------------------- concrete boards
def _native(job):
    which, seed, n, secs = job
    import logging

    logging.disable(logging.CRITICAL)
    rng = random.Random(seed)
    out = {"tried": 0, "nontrivial": 0, "diff": None, "sample": None}
    t0 = time.time()
    for k in range(n):
        if time.time() - t0 > secs:
            break
        out["tried"] += 1
        d = NATIVE[which](rng, k, out)
        if d:
            out["diff"] = d
            break
    return out


def native_index(rng, k, out):
    from noqx.puzzle.penpa import PenpaPuzzle

    p = PenpaPuzzle("x", "")
    p.row, p.col = rng.randint(1, 12), rng.randint(1, 12)
    p.margin = tuple(rng.randint(0, 4) for _ in range(4))
    t, b, l, r = p.margin
    h, w = p.row + t + b + 4, p.col + l + r + 4
    out["nontrivial"] += any(p.margin)
    for cat in range(4):
        for y in range(h):
            for x in range(w):
                i = cat * h * w + y * w + x
                try:
                    got, back = p.index_to_coord(i), p.coord_to_index((y - 2 - t, x - 2 - l), cat)
                except Exception as e:
                    return {"board": [p.row, p.col, p.margin], "index": i, "what": f"{type(e).__name__}: {e}"}
                if (tuple(got[0]), got[1]) != ((y - 2 - t, x - 2 - l), cat) or back != i:
                    return {"board": [p.row, p.col, p.margin], "index": i, "what": f"index {i} is {(y - 2 - t, x - 2 - l)} of kind {cat}: index_to_coord gives {got}, coord_to_index gives {back}"}
    if k == 0:
        from noqx.puzzle import penpa
        from .drawings import KINDS

        for cat, d in KINDS.items():
            want = {0: (3, 5, d), 1: (4, 6, d), 2: (4, 5, d), 3: (3, 6, d)}[cat]
            got = penpa.category_to_direction(3, 5, cat)
            if tuple(got) != want:
                return {"what": f"kind {cat} at (3, 5) is {want}: category_to_direction gives {got}"}


def native_size(rng, k, out):
    """The board derived from the header."""
    from noqx.puzzle.penpa import PenpaPuzzle
    from . import drawings as D

    b = D.Board(rng, "x")
    p = PenpaPuzzle("x", b.content())
    p.decode()
    if (p.row, p.col, tuple(p.margin)) != (b.row, b.col, b.margin):
        return {"content": b.content(), "what": f"a {b.row}x{b.col} board with margins {b.margin} is read as {p.row}x{p.col}, {p.margin}"}
    return native_index(rng, k, out)


def native_decode(rng, k, out):
    from noqx.puzzle.penpa import PenpaPuzzle
    from . import drawings as D

    b = D.Board(rng, rng.choice(NAMES), big=k % 5 == 0)
    if k == 1:
        b.parts[0] = b.parts[0].replace(b.kind, "hex")
        try:
            PenpaPuzzle(b.name, b.content()).decode()
        except NotImplementedError:
            return None
        except Exception as e:
            return {"content": b.content(), "what": f"a hexagonal board is rejected by {type(e).__name__}: {e}"}
        return {"content": b.content(), "what": "a hexagonal board is not rejected"}
    p = PenpaPuzzle(b.name, b.content())
    want = b.elements()
    out["nontrivial"] += any(want.values())
    if out["sample"] is None and sum(map(len, want.values())) > 3:
        out["sample"] = {"name": b.name, "rows": b.row, "cols": b.col, "margin": b.margin, "drawn": D.show(want)}
    try:
        p.decode()
    except Exception as e:
        return {"content": b.content(), "drawn": D.show(want), "what": f"reading fails with {type(e).__name__}: {e}"}
    d = D.board_diff(D.elements_of(p), want)
    if (p.row, p.col, tuple(p.margin)) != (b.row, b.col, b.margin):
        d.insert(0, f"size {b.row}x{b.col} {b.margin} is read as {p.row}x{p.col} {p.margin}")
    if d:
        return {"content": b.content(), "puzzle": b.name, "drawn": D.show(want), "what": d[0], "all": d[:10]}


def _written(rng, k, answer):
    """(board, solution, parts after writing or the exception)."""
    from noqx.puzzle.penpa import PenpaPuzzle
    from . import drawings as D

    b = D.Board(rng, rng.choice(NAMES), answer=answer, big=k % 5 == 0)
    sol = D.solution(b, rng)
    p = PenpaPuzzle(b.name, b.content())
    p.decode()
    p.clear()
    for m, d in sol.items():
        getattr(p, m).update(d)
    try:
        return b, sol, p.encode(), None
    except Exception as e:
        return b, sol, None, f"writing fails with {type(e).__name__}: {e}"


def native_encode(rng, k, out, given_only=False):
    from . import drawings as D

    b, sol, text, err = _written(rng, k, True)
    es = list(D.entries(b, sol))
    out["nontrivial"] += any(g for *_, g in es) if given_only else bool(es)
    info = {"content": b.content(), "puzzle": b.name, "solution": D.show(sol)}
    if out["sample"] is None and len(es) > 3:
        out["sample"] = {"name": b.name, "rows": b.row, "cols": b.col, "solution": D.show(sol), "given": [e[:2] for e in es if e[3]]}
    if err:
        return None if given_only else {**info, "what": err}
    try:
        if not text.startswith(D.PREFIX):
            raise ValueError("no prefix")
        parts = D.unpack(text)
        got = json.loads(D.long(parts[4]))
    except Exception as e:
        return None if given_only else {**info, "what": f"the written content cannot be read: {type(e).__name__}: {e}"}
    want = json.loads(json.dumps(b.layers[4]))
    if given_only:
        keys = {}
        for s, key, v, g in es:
            keys.setdefault((s, key), (v, g))
        for (s, key), (v, g) in keys.items():
            if g and got[s].get(key) != want[s].get(key):
                return {**info, "what": f"{s} {key} is given in the question, and drawn again as {got[s].get(key)!r}"}
            if not g and got[s].get(key) != v:
                return {**info, "what": f"{s} {key} is free in the question, and not drawn (it is {got[s].get(key)!r}, not {v!r})"}
        return None
    for s, key, v, g in es:
        if not g:
            want[s][key] = v
    if got != want:
        for s in sorted(set(got) | set(want)):
            if got.get(s) != want.get(s):
                return {**info, "what": f"answer layer, {s}: {json.dumps(got.get(s))[:300]} instead of {json.dumps(want.get(s))[:300]}"}
    for j, (x, y) in enumerate(zip(parts, b.parts)):
        if j != 4 and x != y:
            return {**info, "what": f"part {j} of the content changed from {y[:120]!r} to {x[:120]!r}"}
    if len(parts) != len(b.parts):
        return {**info, "what": f"{len(b.parts)} parts became {len(parts)}"}


def native_given(rng, k, out):
    return native_encode(rng, k, out, True)


def native_roundtrip(rng, k, out):
    from noqx.puzzle import Direction, Point
    from noqx.puzzle.penpa import PenpaPuzzle
    from . import drawings as D

    b, sol, text, err = _written(rng, k, False)
    info = {"content": b.content(), "puzzle": b.name, "solution": D.show(sol)}
    out["nontrivial"] += any(sol.values())
    if err:
        return {**info, "what": err}
    at = b.places[3]
    back = {m: {} for m in sol}
    for m in sol:
        for p, v in sol[m].items():
            if m == "symbol" and b.name == "nondango":
                back[m][Point(p.r, p.c, p.d, "nondango_mark" if v == "circle_M__4" else "normal")] = v
            elif m == "edge" and (p.r, p.c, p.d) in at["edge"] or m == "line" and b.name != "hashi" and (p.r, p.c, p.pos[0]) in at["line"]:
                pass
            elif m in ("surface", "text", "symbol") and (p.r, p.c) in at["number" if m == "text" else m]:
                pass
            else:
                back[m][p] = v
    want = {m: {**back[m], **b.drawn[3][m]} for m in sol}
    q = PenpaPuzzle(b.name, text)
    try:
        q.decode()
    except Exception as e:
        return {**info, "what": f"reading the written solution fails with {type(e).__name__}: {e}"}
    d = D.board_diff(D.elements_of(q), want)
    if d:
        return {**info, "written": text, "what": d[0], "all": d[:10]}


def native_store(rng, k, out):
    from noqx import manager
    from noqx.puzzle import Color, Direction, Point
    from noqx.puzzle.penpa import PenpaPuzzle
    from . import drawings as D

    if not manager.modules:
        os.chdir(REPO)
        manager.load_solvers("solver")
    special = ("battleship", "easyasabc", "news")
    name = rng.choice(special) if rng.random() < 0.4 else rng.choice(sorted(manager.modules))
    b = D.Board(rng, name, big=k % 5 == 0)
    C = Direction.CENTER
    want = {m: {} for m in ("surface", "text", "symbol", "edge", "line")}
    atoms = []
    param = {"letters": "ABCDE"}
    spots = [(r, c) for r in range(-1, b.row + 1) for c in range(-1, b.col + 1)]
    rng.shuffle(spots)
    fleet = f"battleship_{rng.choice('BGW')}"
    for r, c in spots[:rng.randint(0, len(spots))]:
        kind = rng.choice(("edge_top", "edge_left", "edge_diag_up", "edge_diag_down", "grid_direction", "grid_in", "grid_out", "number", "numberx", "content", "triangle", "gray", "black", "circle_M__1", "ox_E__3", "star__2"))
        if name == "battleship":
            kind = fleet
        elif name in ("easyasabc", "news"):
            kind = "number"
        q = Point(r, c, C, "normal")
        if kind.startswith("edge_"):
            atoms.append(f"{kind}({r},{c})")
            want["edge"][Point(r, c, {d.value: d for d in Direction}[kind[5:]], "normal")] = True
        elif kind.startswith("grid_"):
            x = rng.choice("udlr")
            if name == "hashi":
                n = rng.randint(1, 2)
                atoms.append(f'grid_direction({r},{c},"{x}",{n})')
                want["line"][Point(r, c, C, f"{x}_{n}")] = True
            else:
                atoms.append(f'{kind}({r},{c},"{x}")')
                want["line"][Point(r, c, C, x)] = True
        elif kind.startswith("number"):
            n = rng.randint(1, 4) if name in ("easyasabc", "news") else rng.randint(0, 30)
            atoms.append(f"{kind}({r},{c},{n})")
            want["text"][q] = "ABCDE"[n - 1] if name == "easyasabc" else "NEWS"[n - 1] if name == "news" else n
        elif kind == "content":
            x = rng.choice(("A", "E", "Z"))
            atoms.append(f'content({r},{c},"{x}")')
            want["text"][q] = x
        elif kind == "triangle":
            x = rng.choice(("ul", "ur", "dl", "dr"))
            atoms.append(f'triangle({r},{c},"{x}")')
            want["symbol"][q] = {"ul": "tri__1", "dl": "tri__2", "dr": "tri__3", "ur": "tri__4"}[x]
        elif kind in ("gray", "black"):
            atoms.append(f"{kind}({r},{c})")
            want["surface"][q] = Color.GRAY if kind == "gray" else Color.BLACK
        else:
            atoms.append(f"{kind}({r},{c})")
            want["symbol"][q] = kind
    if name == "battleship":
        on = {(p.r, p.c) for p in want["symbol"]}
        for p in list(want["symbol"]):
            near = "".join(s for s, (y, x) in (("u", (-1, 0)), ("d", (1, 0)), ("l", (0, -1)), ("r", (0, 1))) if (p.r + y, p.c + x) in on)
            part = {"": 1, "r": 3, "d": 4, "l": 5, "u": 6}.get(near) or (2 if "ud" in near or "lr" in near else None)
            want["symbol"][p] = f"{fleet}__{part}" if part else fleet
    rng.shuffle(atoms)
    text = " ".join(atoms)
    puzzle = PenpaPuzzle(name, b.content(), param)
    puzzle.decode()
    before = D.elements_of(puzzle)
    info = {"content": b.content(), "puzzle": name, "answer": text}
    out["nontrivial"] += bool(atoms)
    if out["sample"] is None and len(atoms) > 3:
        out["sample"] = {"name": name, "answer": text[:300]}
    try:
        s = manager.store_solution(puzzle, text)
    except Exception as e:
        return {**info, "what": f"the answer is not converted: {type(e).__name__}: {e}"}
    d = D.board_diff(D.elements_of(s), want)
    if d:
        return {**info, "what": d[0], "all": d[:10]}
    if D.elements_of(puzzle) != before:
        return {**info, "what": "the board of the request was changed"}


NATIVE = {"index": native_size, "decode": native_decode, "encode": native_encode, "given": native_given, "roundtrip": native_roundtrip, "store": native_store}

FUNCS = {
    "index": ["PenpaPuzzle.index_to_coord", "PenpaPuzzle.coord_to_index", "category_to_direction", "PenpaPuzzle._init_size"],
    "decode": ["PenpaPuzzle.decode", "PenpaPuzzle._init_size", "PenpaPuzzle._unpack_board", "PenpaPuzzle._unpack_surface", "PenpaPuzzle._unpack_text", "PenpaPuzzle._unpack_sudoku",
               "PenpaPuzzle._unpack_symbol", "PenpaPuzzle._unpack_edge", "PenpaPuzzle._unpack_line", "PenpaPuzzle.index_to_coord", "category_to_direction", "int_or_str", "Puzzle.__init__"],
    "encode": ["PenpaPuzzle.encode", "PenpaPuzzle._pack_board", "PenpaPuzzle._pack_surface", "PenpaPuzzle._pack_text", "PenpaPuzzle._pack_symbol", "PenpaPuzzle._pack_edge",
               "PenpaPuzzle._pack_line", "PenpaPuzzle.coord_to_index", "Puzzle.clear"],
    "store": ["store_solution", "Puzzle.clear", "PenpaPuzzle.decode"],
}
FUNCS["given"] = FUNCS["encode"]
FUNCS["roundtrip"] = FUNCS["encode"] + FUNCS["decode"]
PLAN = {"C01": "index", "C02": "decode", "C03": "encode", "C04": "given", "C05": "roundtrip", "C06": "store"}
ASSUME = {
    "*": ["base64, zlib and json are used through their contracts: decoding undoes encoding, raw deflate data is zlib data without its header and trailer, json.loads undoes json.dumps",
          "a board text is one the editor writes: at least five lines, a header with the sizes, four margins, objects keyed by editor indices, segments between neighbouring points with the smaller index first, at most one of cross and line at a place, and no text that contains one of the two-letter abbreviations"],
    "C05": ["solution elements are the producible ones (what C06 yields): shades gray or black, numbers not negative, symbols named shape__number, u/d/l/r lines (hashi with _1 or _2); the answer layer of the request is empty"],
    "C06": ["answers are texts of blank-separated atoms without blanks inside, their names and strings contain no brackets, commas or quotes (clingo's output of the shown atoms, property C07)"],
}


def run(r, prop):
    which = PLAN[prop]
    t = tier()
    r.assume(*ASSUME["*"], *ASSUME.get(prop, []))
    jobs = [which] + (["size"] if which == "index" else []) + ([f"refine:{n}" for n in refiners(r)] if prop == "C06" else [])
    ded = run_pool(_deduce, [(w, LIMIT[t]) for w in jobs], r, prop)
    n, secs = (1200, 60) if t == "quick" else (8000, 400)
    nat = run_pool(_native, [(which, SEED * 1000 + k, n, secs) for k in range(8 if t == "quick" else 16)], r, prop)
    if which == "decode":
        nat.append(native_styles())
    hit = next((x["diff"] for x in nat if x["diff"]), None)
    r.bounded_cases += sum(x["tried"] for x in nat)
    r.extra["distinct_nontrivial"] = sum(x["nontrivial"] for x in nat)
    r.extra["rule"] = "random boards up to 9x9 with margins up to 3 and up to eight elements of every kind per layer, with random solutions or answers over them; non-trivial: at least one element (for givens: one that meets a given)"
    r.samples += [x["sample"] for x in nat if x.get("sample")]
    failing = []
    for x in sorted(ded, key=lambda x: x["which"]):
        r.add(x["n"], x["ok"], "z3", x["calls"], x["secs"])
        fs = [f"solver.{x['which'][7:]}.refine"] if x["which"].startswith("refine:") else [f"noqx.manager.{f}" if f == "store_solution" else f"noqx.puzzle.penpa.{f}" if not f.startswith("Puzzle.") else f"noqx.puzzle.{f}" for f in FUNCS[which]]
        r.open += x["open"][:20]
        if x["why"] or x["open"]:
            for f in fs:
                r.bounded.append({"function": f, "why": x["why"] or x["open"][0], "bound": r.extra["rule"]})
        else:
            r.functions += [f for f in fs if f not in r.functions]
        if x["failed"] and x["ok"] / max(1, x["n"]) > 0.5:
            failing.append(x)
    if hit:
        r.violation(which, hit["what"], {"input": hit, "failed_obligations": [o for x in ded for o in x["open"]][:12], "deduction": [x["why"] for x in ded if x["why"]]}, True)
        if not any(x["open"] or x["why"] for x in ded):
            r.errors.append("proved, yet a concrete board differs (engine unsound?)")
    elif failing:
        x = failing[0]
        r.violation(which, f"obligation {x['open'][0][:300]}", {"failed_obligations": x["open"][:20], "boards_compared": r.bounded_cases}, False)


def native_styles():
    """style_convert: every list of up to ten flags."""
    import itertools

    out = {"tried": 0, "nontrivial": 0, "diff": None}
    try:
        from noqx.puzzle.penpa import style_convert
    except ImportError:
        return out
    for n in range(1, 11):
        for fl in itertools.product((0, 1), repeat=n):
            out["tried"] += 1
            out["nontrivial"] += 1
            got, want = style_convert(list(fl)), sum(b << i for i, b in enumerate(reversed(fl)))
            if got != want:
                out["diff"] = {"flags": fl, "what": f"style_convert({list(fl)}) is {got}, not {want}"}
                return out
    return out


def refiners(r):
    """Puzzle types that override refine."""
    import importlib
    from noqx.manager import Solver

    out = []
    for f in sorted(os.listdir(f"{REPO}/solver")):
        if f.endswith(".py") and f != "__init__.py":
            m = importlib.import_module(f"solver.{f[:-3]}")
            for c in vars(m).values():
                if isinstance(c, type) and issubclass(c, Solver) and c is not Solver and c.__module__ == m.__name__ and c.refine is not Solver.refine:
                    out.append(f[:-3])
    return sorted(set(out) | {"battleship", "easyasabc", "news"})
