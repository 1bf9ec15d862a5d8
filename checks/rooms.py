"""C09: full_bfs computes the rooms of the board."""
import importlib
import itertools
import random

from .common import *
from .shapes import Endless, limited


def oracle(rows, cols, walls):
    """Rooms by union-find over the orthogonal steps no wall separates."""
    root = {(r, c): (r, c) for r in range(rows) for c in range(cols)}

    def find(x):
        while root[x] != x:
            x = root[x]
        return x

    for r in range(rows):
        for c in range(cols):
            if c + 1 < cols and (r, c + 1, "left") not in walls:
                root[find((r, c))] = find((r, c + 1))
            if r + 1 < rows and (r + 1, c, "top") not in walls:
                root[find((r, c))] = find((r + 1, c))
    out = {}
    for x in root:
        out.setdefault(find(x), set()).add(x)
    return {frozenset(x) for x in out.values()}


def judge(fn, rows, cols, edges, clues, D, P):
    """None, or what is wrong with full_bfs on this board."""
    walls = {(p.r, p.c, p.d.value) for p, v in edges.items() if v is True and p.d in (D.LEFT, D.TOP)}
    before = dict(edges), None if clues is None else dict(clues)
    try:
        got = limited(10, fn, rows, cols, edges, clues)
    except (Exception, Endless) as e:
        return f"raises {type(e).__name__}: {e}"
    if (edges, clues) != before:
        return "changes its arguments"
    try:
        rooms = [(tuple(tuple(x) for x in k), v) for k, v in got.items()]
    except Exception:
        return f"returns {got!r}"
    flat = [x for k, _ in rooms for x in k]
    if len(flat) != len(set(flat)):
        return "a cell is in two rooms or twice in one"
    if {frozenset(k) for k, _ in rooms} != oracle(rows, cols, walls) or any(not k for k, _ in rooms):
        return f"rooms are {sorted(sorted(k) for k, _ in rooms)}"
    cells = {(p.r, p.c) for p in clues} if clues else set()
    for k, v in rooms:
        have = cells & set(k)
        if have and (v is None or tuple(v) not in have):
            return f"room {sorted(k)} is associated with {v}, its clue cells are {sorted(have)}"
        if not have and v is not None:
            return f"room {sorted(k)} without clue is associated with {v}"
    return None


class Choice:
    """Stands for the random module inside noqx.rule.helper: every source of choice follows a script."""

    def __init__(self, script, rng):
        self.script, self.rng, self.i, self.width = script, rng, 0, []

    def __getattr__(self, name):
        return getattr(random, name)

    def choice(self, seq):
        seq = sorted(seq)
        k = self.script[self.i] if self.i < len(self.script) else (self.rng.randrange(len(seq)) if self.rng else 0)
        self.i += 1
        self.width.append(len(seq))
        return seq[k % len(seq)]


def native(fn, mod, r):
    from noqx.puzzle import Direction as D, Point as P

    thorough = tier() == "thorough"
    rng = random.Random(SEED)
    real = getattr(mod, "random", None)
    count = 0

    def rep(rows, cols, edges, clues, what):
        return {"rows": rows, "cols": cols, "edges": {str(k): v for k, v in edges.items()}, "clues": None if clues is None else {str(k): v for k, v in clues.items()}, "what": what}

    def scripts(rows, cols, edges, clues):
        """All sequences of choices the function makes on this board."""
        todo = [[]]
        while todo:
            s = todo.pop()
            c = Choice(s, None)
            mod.random = c
            bad = judge(fn, rows, cols, edges, clues, D, P)
            yield bad
            for i in range(len(s), len(c.width)):
                for k in range(1, c.width[i]):
                    todo.append(s + [0] * (i - len(s)) + [k])

    try:
        for rows in range(1, 5):
            for cols in range(1, 5):
                if rows * cols > (6 if thorough else 4) or max(rows, cols) > 4:
                    continue
                inner = [P(a, b, D.LEFT) for a in range(rows) for b in range(1, cols)] + [P(a, b, D.TOP) for a in range(1, rows) for b in range(cols)]
                cells = [(a, b) for a in range(rows) for b in range(cols)]
                for ks in itertools.product((None, True, False) if rows * cols <= 3 else (None, True), repeat=len(inner)):
                    edges = {p: k for p, k in zip(inner, ks) if k is not None}
                    for m in range(1 << len(cells)):
                        if rows * cols > 4 and rng.random() < .8:
                            continue
                        clues = {P(a, b, rng.choice([D.CENTER, D.TOP_LEFT]), rng.choice(["normal", "sudoku_0", "x"])): rng.choice([1, "?", "a"]) for i, (a, b) in enumerate(cells) if m >> i & 1}
                        if not m and rng.random() < .5:
                            clues = None
                        for bad in scripts(rows, cols, edges, clues):
                            count += 1
                            if bad:
                                return count, bad, rep(rows, cols, edges, clues, bad)
        for _ in range(20000 if thorough else 1500):
            rows, cols = rng.choice([(rng.randint(1, 9), rng.randint(1, 9)), (rng.randint(1, 4), rng.randint(1, 4)), (1, rng.randint(1, 12)), (rng.randint(1, 12), 1)])
            dens = rng.choice([.1, .3, .5, .7, 1])
            edges = {}
            for a in range(-1, rows + 2):
                for b in range(-1, cols + 2):
                    for d in (D.LEFT, D.TOP, D.DIAG_UP, D.DIAG_DOWN):
                        inside = 0 <= a < rows + (d is D.TOP) and 0 <= b < cols + (d is D.LEFT)
                        if rng.random() < (dens if inside else .1):
                            edges[P(a, b, d)] = rng.random() < .85
            cd = rng.choice([0, .1, .4, 1])
            clues = {P(a, b, rng.choice([D.CENTER, D.TOP_LEFT]), rng.choice(["normal", "corner_1"])): 1 for a in range(-1, rows + 1) for b in range(-1, cols + 1)
                     if rng.random() < (cd if 0 <= a < rows and 0 <= b < cols else .05)}
            if not clues and rng.random() < .5:
                clues = None
            mod.random = Choice([], random.Random(rng.random()))
            bad = judge(fn, rows, cols, edges, clues, D, P)
            count += 1
            if bad:
                return count, bad, rep(rows, cols, edges, clues, bad)
    finally:
        if real is None:
            del mod.random
        else:
            mod.random = real
    return count, None, None


def run(r, _):
    mod = importlib.import_module("noqx.rule.helper")
    count, bad, rep = native(mod.full_bfs, mod, r)
    r.bounded_cases += count
    if bad:
        r.violation("rooms", f"full_bfs: {bad}", rep, True)
    from pyvc import rooms

    res = rooms.prove(mod)
    r.add(res.total, res.done, "z3", res.calls, res.secs)
    r.open += res.failed + res.unknown
    if res.unsupported:
        r.bounded.append({"function": "noqx.rule.helper.full_bfs", "why": res.unsupported})
    elif not res.failed and not res.unknown:
        r.functions += res.functions
    if res.unknown:
        r.bounded.append({"function": "noqx.rule.helper.full_bfs", "why": "the solver gave no answer on: " + "; ".join(res.unknown)})
    if res.failed and not bad:
        for f in res.failed:
            r.violation(f, f"full_bfs: {f}", {"obligation": f, "verifier": res.detail.get(f, "")}, False)
    r.samples += res.samples
    r.assume("edges are given as LEFT and TOP borders of cells, as the decoder produces them (property C02); other directions are no walls of the board",
             "reachability is the least relation closed under single steps; the obligations hold for every relation closed under steps, so for the least one",
             "random.choice returns an element of its argument")
