"""C15 on concrete boards: the answers of a marked board are exactly the unmarked board's answers that agree with the
mark, judged on the drawn answer (what store_solution makes of the displayed atoms)."""
import copy
import random
import time

from noqx.puzzle import Color, Direction, Point


GIVEN_SYMBOL = ("binairo", "hakoiri")  # the clues are parts of the answer


def drawn(name, atoms):
    """The elements an answer draws: {"surface": {...}, ...} of plain values."""
    from noqx import manager

    if name not in manager.modules:
        import os

        from .common import REPO

        os.chdir(REPO)
        manager.load_solvers("solver")
    from pyvc import concrete

    base = concrete.load({"name": name, "row": 1, "col": 1})

    class Blank(type(base)):
        def __init__(self, n, content, param=None):
            super().__init__(n, content, param)

        def decode(self):
            pass

    saved = manager.PenpaPuzzle
    module = manager.modules[name]
    manager.PenpaPuzzle = Blank
    module.refine = lambda s: s
    try:
        return manager.store_solution(base, " ".join(atoms))
    finally:
        manager.PenpaPuzzle = saved
        del module.refine


def supported(name, board, m, el):
    """Does the contract of the type demand a statement for this mark?"""
    from pyvc import concrete

    b = copy.deepcopy(board)
    a = concrete.run_contract(name, b)
    b[m].append(el)
    z = concrete.run_contract(name, b)
    if a[0] != "normal" or z[0] != "normal":
        return False
    if m == "text":
        # a given number, where the type fills numbers in
        r, c, _, _, n = el
        new = set(z[1]["clue"].split("\n")) - set(a[1]["clue"].split("\n"))
        return all(a[1][k] == z[1][k] for k in ("rule", "mark", "show")) and new == {f"number({r}, {c}, {n})."}
    if name in GIVEN_SYMBOL and m == "symbol" and all(a[1][k] == z[1][k] for k in ("rule", "mark", "show")):
        return a[1]["clue"] != z[1]["clue"]
    if name == "usoone" and m == "symbol" and not any(e[:4] == el[:4] for e in board["text"]):
        return False  # only clues are right or wrong
    if any(a[1][k] != z[1][k] for k in ("rule", "clue", "show")):
        return False  # it is (also) a clue
    return a[1]["mark"] != z[1]["mark"]


def agrees(name, m, el, sol):
    r, c, d, pos, v = el
    k = Point(r, c, Direction[d], pos)
    if m == "text":
        return sol.text.get(k) == v
    if name == "hanare" and v == "GREEN":  # marks a cell without a number
        return Point(r, c) not in sol.text
    if name == "usoone" and m == "symbol":  # right and wrong clues; other cells have none
        return sol.symbol.get(Point(r, c)) in (None, v)
    if m == "surface":
        dark = sol.surface.get(Point(r, c))
        return (dark is not None) == (v != "GREEN")
    if m == "symbol":
        return sol.symbol.get(Point(r, c)) == v
    if name == "hashi" and m == "line" and not v:  # a cross says that there is neither one link nor two
        return not any(sol.line.get(Point(r, c, Direction[d], pos + n)) for n in ("_1", "_2"))
    return (getattr(sol, m).get(k) is True) == v


def candidates(name, board, rnd, sols):
    """Marks, about half of them read off an answer."""
    from pyvc import concrete

    rows, cols = board["row"], board["col"]
    out = []
    for r in range(rows):
        for c in range(cols):
            out += [("surface", [r, c, "CENTER", "normal", v]) for v in ("BLACK", "GRAY", "GREEN")]
            for pos in "udlr":
                out += [("line", [r, c, "CENTER", pos + s, True]) for s in (("_1", "_2") if name == "hashi" else ("",))]
                out.append(("line", [r, c, "CENTER", pos, False]))
            out += [("symbol", [r, c, "CENTER", "normal", v]) for v in symbols_of(name, sols)]
            out += [("text", [r, c, "CENTER", "normal", n]) for n in sorted({x.text[q] for x in sols for q in x.text if q[:2] == (r, c) and isinstance(x.text[q], int)})[:4]]
    for r in range(rows + 1):
        for c in range(cols + 1):
            if c < cols:
                out += [("edge", [r, c, "TOP", "normal", v]) for v in (True, False)]
            if r < rows:
                out += [("edge", [r, c, "LEFT", "normal", v]) for v in (True, False)]
    taken = {m: {tuple(e[:4]) for e in board[m]} for m in ("surface", "line", "symbol", "edge", "text")}
    cells = {m: {tuple(e[:2]) for e in board[m]} for m in ("symbol", "text")}
    out = [(m, e) for m, e in out if tuple(e[:4]) not in taken[m] and tuple(e[:2]) not in cells.get(m, ())]
    rnd.shuffle(out)
    if rnd.random() < 0.3:  # marks on cells that hold a clue first
        held = {tuple(e[:2]) for m in ("text", "symbol") for e in board[m]}
        out.sort(key=lambda x: tuple(x[1][:2]) not in held)
    return out


def symbols_of(name, sols):
    return sorted({v for s in sols for v in s.symbol.values()})[:4]


def compare(name, seed, n, seconds, cap=400):
    """Dict with tried, marks, diff."""
    from pyvc import concrete
    from pyvc.run import solver_class

    rnd = random.Random(f"marks/{name}/{seed}")
    v = concrete.Vocab(name, concrete.pinned().get(name, []))
    res = {"name": name, "tried": 0, "boards": 0, "kinds": {}, "diff": None, "sample": None}
    t0 = time.time()
    i = late = 0
    while time.time() - t0 < seconds and res["tried"] < n:
        i += 1
        b = concrete.sparse_board(v, rnd, rnd.choice((0, 1, 1, 2, 3))) if i % 4 else small(concrete.random_board(v, rnd, 0))
        for m in ("surface", "line"):
            b[m] = []
        p = concrete.run_real(name, b)
        if p[0] != "normal":
            continue
        if late >= 2:
            break
        try:
            ms, done, err = concrete.guarded(lambda: concrete.models(p[1], cap + 1, 2), 15)
        except concrete.TooLong:
            late += 1
            continue
        if err or not done or not ms or len(ms) > cap:
            continue
        res["boards"] += 1
        sols = {a: drawn(name, a) for a in ms}
        quota = {"surface": 3, "line": 3, "edge": 3, "symbol": 3, "text": 3}
        for m, e in candidates(name, b, rnd, list(sols.values())):
            if not quota[m] or time.time() - t0 > seconds:
                continue
            if not supported(name, b, m, e):
                continue
            quota[m] -= 1
            b2 = copy.deepcopy(b)
            b2[m].append(e)
            q = concrete.run_real(name, b2)
            if q[0] != "normal":
                got = f"{q[1]}: {q[2]}"
                want = None
            else:
                try:
                    g, d2, err = concrete.guarded(lambda: concrete.models(q[1], cap + 1, 5), 20)
                except concrete.TooLong:
                    late += 1
                    continue
                if err is None and not d2:
                    continue
                got = set(g) if err is None else err
                want = {a for a, s in sols.items() if agrees(name, m, e, s)}
            res["tried"] += 1
            res["kinds"][m] = res["kinds"].get(m, 0) + 1
            if res["sample"] is None and want:
                res["sample"] = {"puzzle": name, "board": b2, "mark": [m, e], "answers_unmarked": len(ms), "answers_marked": len(want)}
            if got != want:
                what = got if isinstance(got, str) else f"{len(ms)} answers without the mark, {len(want)} of them agree with it, {len(got)} answers with it"
                wit = None if isinstance(got, str) else sorted(next(iter(got ^ want)))
                res["diff"] = {"puzzle": name, "board": b2, "mark": [m, e], "what": f"{m} {e}: {what}", "answer_on_which_they_differ": wit}
                return res
    return res


def small(b):
    """Cut to at most 3x3."""
    rows, cols = min(b["row"], 3), min(b["col"], 3)
    b = copy.deepcopy(b)
    b["row"], b["col"] = rows, cols
    for m in ("text", "symbol", "surface", "line"):
        b[m] = [e for e in b[m] if e[0] < rows and e[1] < cols]
    b["edge"] = [e for e in b["edge"] if e[0] <= rows and e[1] <= cols and not (e[2] == "TOP" and e[1] == cols) and not (e[2] == "LEFT" and e[0] == rows)]
    return b
