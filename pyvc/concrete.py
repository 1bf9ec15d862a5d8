"""Running code and contract natively on concrete boards: bounded comparison, replay of counterexamples, witnesses."""
import contextlib
import copy
import importlib
import itertools
import json
import random
import signal
import time

from noqx.puzzle import Color, Direction, Point, Puzzle

MAPS = ("text", "symbol", "surface", "edge", "line")


# ---------------------------------------------------------------------------------------------- boards as data
def dump(p):
    def val(v):
        return v.name if isinstance(v, Color) else v

    out = {"name": p.puzzle_name, "row": p.row, "col": p.col, "margin": list(p.margin), "param": dict(p.param)}
    for m in MAPS:
        out[m] = [[k.r, k.c, k.d.name, k.pos, val(v)] for k, v in getattr(p, m).items()]
    return out


def load(b):
    p = object.__new__(Puzzle)
    Puzzle.__init__(p, b["name"], "", dict(b.get("param", {})))
    p.row, p.col, p.margin = b["row"], b["col"], tuple(b.get("margin", (0, 0, 0, 0)))
    for m in MAPS:
        d = {}
        for r, c, dr, pos, v in b.get(m, []):
            d[Point(r, c, Direction[dr], pos)] = Color[v] if m == "surface" else v
        setattr(p, m, d)
    return p


def pinned():
    with open("/verif/data/boards.json") as f:
        return json.load(f)


# ---------------------------------------------------------------------------------------------- rooms (contract of C09)
def rooms_of(rows, cols, edges, clues=None):
    """The rooms in reading order of their first cell, cells in reading order; a room's clue cell is its last one."""
    at = {(k[0], k[1]) for k in clues} if clues else set()
    left = {(r, c) for r in range(rows) for c in range(cols)}
    out = {}
    while left:
        todo = [min(left)]
        left.discard(todo[0])
        room = []
        while todo:
            r, c = todo.pop()
            room.append((r, c))
            for d, k in (((0, -1), Point(r, c, Direction.LEFT)), ((0, 1), Point(r, c + 1, Direction.LEFT)),
                         ((-1, 0), Point(r, c, Direction.TOP)), ((1, 0), Point(r + 1, c, Direction.TOP))):
                n = (r + d[0], c + d[1])
                if n in left and edges.get(k) is not True:
                    left.discard(n)
                    todo.append(n)
        room.sort()
        hit = [x for x in room if x in at]
        out[tuple(room)] = hit[-1] if hit else None
    return out


@contextlib.contextmanager
def patched_rooms():
    """Every full_bfs in sight replaced by its contract, so that both sides number the rooms alike."""
    import sys

    from noqx.rule import helper

    real = helper.full_bfs
    saved = []
    for mn, m in list(sys.modules.items()):
        if m is not None and (mn.startswith(("solver.", "noqx.", "specs."))) and getattr(m, "full_bfs", None) is real:
            saved.append(m)
            m.full_bfs = rooms_of
    try:
        yield
    finally:
        for m in saved:
            m.full_bfs = real


class TooLong(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def stop(*_):
        raise TooLong()

    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def guarded(f, seconds, mb=5000):
    """f() in a forked process with a time and a memory limit, since grounding cannot be interrupted; TooLong when it does not come back."""
    import os
    import pickle
    import resource
    import select

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            now = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
            resource.setrlimit(resource.RLIMIT_AS, (now + mb * 2**20,) * 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = (True, f())
            except MemoryError:
                out = None
            except Exception as e:
                out = (False, f"{type(e).__name__}: {e}")
            if out is not None:
                with os.fdopen(w, "wb") as h:
                    h.write(pickle.dumps(out))
                code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, t0 = b"", time.time()
    try:
        while True:
            left = t0 + seconds - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise TooLong(f"no result within {seconds} s")
            x = os.read(r, 1 << 20)
            if not x:
                break
            data += x
    finally:
        os.close(r)
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if not data:
        raise TooLong(f"ended without a result (limit {mb} MB)")
    ok, v = pickle.loads(data)
    if not ok:
        raise RuntimeError(v)
    return v


def outcome(f):
    try:
        with limit(20):
            return "normal", f()
    except TooLong:
        return "raise", "Timeout", "no answer within 20 s"
    except Exception as e:  # noqa: BLE001 - the class of the exception is the observation
        return "raise", "ValueError" if isinstance(e, ValueError) else type(e).__name__, str(e)


def run_real(name, board):
    from .run import solver_class

    importlib.import_module(f"solver.{name}")
    with patched_rooms():
        s = solver_class(name)()
        return outcome(lambda: s.solve(load(board)))


def run_contract(name, board):
    from specs import lib

    from .solvers import contract_of

    f = contract_of(name)
    with patched_rooms():
        return outcome(lambda: dict(zip(("rule", "clue", "mark", "show"), lib.contract(f, load(board)))))


# ---------------------------------------------------------------------------------------------- comparing programs
def parsed(text, tag):
    """The statements; when every line is one (or several whole ones), line by line."""
    from . import asp

    lines = text.split("\n") if isinstance(text, str) else None
    if lines is None or not all(x.rstrip().endswith(".") or not x.strip() for x in lines):
        return asp.families(text, tag) if tag else asp.families(text)
    out = []
    for x in lines:
        if x.strip():
            k = x, tag
            if k not in _lines:
                if len(_lines) > 50000:
                    _lines.clear()
                _lines[k] = asp.families(x, tag) if tag else asp.families(x)
            out += _lines[k]
    return out


_lines = {}


def statements(text):
    from . import asp

    return asp.canon_shapes(parsed(text, None))


def tagged(d):
    from . import asp

    out = []
    for t, x in d.items():
        if x:
            out += parsed(x, t)
    return asp.canon_shapes(out)


_same = {}


def difference(real_text, contract):
    """Statements (as text) only in the code's program / only demanded by the contract: [(tag, text)], [(tag, text)]."""
    from . import asp

    a, b = statements(real_text), tagged(contract)
    ta = {asp.show(x.stmt): x for x in a}
    tb = {asp.show(x.stmt): x for x in b}
    only_a = [x for t, x in ta.items() if t not in tb]
    only_b = [x for t, x in tb.items() if t not in ta]
    if not only_a and not only_b:
        return [], []
    idx_a, idx_b = {}, {}
    for x in ta.values():
        idx_a.setdefault(asp.skc(x.stmt), []).append(x)
    for x in tb.values():
        idx_b.setdefault(asp.skc(x.stmt), []).append(x)

    def same(x, y):
        import z3

        k = asp.show(x.stmt), asp.show(y.stmt)
        if k not in _same:
            if len(_same) > 20000:
                _same.clear()
            _same[k] = any(all(z3.is_true(z3.simplify(p == q)) for p, q in eqs) for eqs in asp.matches(x.stmt, y.stmt))
        return _same[k]

    def hit(x, idx):
        return any(same(x, y) for y in idx.get(asp.skc(x.stmt), ()))

    left = [(x.tag, asp.show(x.stmt)) for x in only_a if not hit(x, idx_b)]
    right = [(x.tag, asp.show(x.stmt)) for x in only_b if not hit(x, idx_a)]
    return left, right


class Diff:
    """What one board showed."""

    def __init__(self, board, kind, left=(), right=(), detail=""):
        self.board, self.kind, self.left, self.right, self.detail = board, kind, list(left), list(right), detail
        self.witness = None

    def tags(self):
        return {t for t, _ in self.right if t}


def compare_board(name, board, want_text=False):
    """None if code and contract agree on the board (or the contract does not speak about it), else a Diff."""
    q = run_contract(name, board)
    if q[0] == "raise" and q[1] != "ValueError":
        return None
    p = run_real(name, board)
    if p[0] == "raise" and q[0] == "raise":
        if p[1] == "ValueError":
            return None
        return Diff(board, "require", detail=f"code raises {p[1]}: {p[2]}; contract: rejected with a value error")
    if p[0] != q[0]:
        if p[0] == "raise":
            return Diff(board, "require", detail=f"code raises {p[1]}: {p[2]}; contract: the board is accepted")
        return Diff(board, "require", detail=f"code accepts the board; contract: rejected with a value error ({q[2]})")
    try:
        left, right = difference(p[1], q[1])
    except Exception as e:  # the program does not parse: not comparable here
        return Diff(board, "emits", [(None, f"{type(e).__name__}: {e}")], [])
    if left or right:
        return Diff(board, "emits", left, right)
    return None


# ---------------------------------------------------------------------------------------------- semantic witness
class Silent:
    def __call__(self, *a):
        self.last = a


def shown_sigs(text):
    import re

    return set(re.findall(r"#show\s+([A-Za-z_]\w*)\s*/\s*(\d+)", text))


def models(text, n, seconds, extra=""):
    """Up to n answers (sets of shown atoms) within the time; (answers, exhausted, error)."""
    from clingo.control import Control

    out, err = [], []
    try:
        ctl = Control([f"{n}", "--project=show"], logger=lambda code, m: err.append(m))
        ctl.add("base", [], text + extra)
        ctl.ground([("base", [])])
        with ctl.solve(on_model=lambda m: out.append(frozenset(str(s) for s in m.symbols(shown=True))), async_=True) as h:
            done = h.wait(seconds)
            h.cancel()
            r = h.get()
        return out, bool(done and r.exhausted), None
    except RuntimeError as e:
        return out, False, (err[0] if err else str(e))


def admits(text, atoms, sigs, seconds):
    """Does the program have an answer showing exactly these atoms? True / False / None."""
    extra = "".join(f"m__{a}.\n" for a in atoms)
    for p, k in sigs:
        k = int(k)
        vs = ", ".join(f"X{i}" for i in range(k))
        a = f"({vs})" if k else ""
        extra += f"#defined m__{p}/{k}.\n:- {p}{a}, not m__{p}{a}.\n:- m__{p}{a}, not {p}{a}.\n"
    m, done, err = models(text, 1, seconds, extra)
    if err:
        return None
    return True if m else (False if done else None)


def witness(real_text, contract, seconds=20, n=40):
    """An answer one program admits and the other does not: (side, atoms) or None."""
    ct = "\n".join(contract[t] for t in ("rule", "clue", "mark", "show"))
    sr, sc = shown_sigs(real_text), shown_sigs(ct)
    t0 = time.time()
    if sr != sc:
        return "shown", sorted(f"{p}/{k}" for p, k in sr ^ sc)
    from . import directed

    sigs = {(p, int(k)) for p, k in sr}
    for side, a, b in (("code", real_text, ct), ("contract", ct, real_text)):
        chk = directed.checker(b, sigs)
        if chk is None:
            continue
        ms, _, err = models(a, 8, seconds / 4, "\n" + chk)
        for m in ms if not err else ():
            if time.time() - t0 > seconds:
                break
            if admits(a, sorted(m), sr, seconds / 4) and admits(b, sorted(m), sr, seconds / 4) is False:
                return f"only {side}", sorted(m)
    for side, a, b in (("code", real_text, ct), ("contract", ct, real_text)):
        ms, _, err = models(a, n, seconds / 4)
        if err:
            other = models(b, 1, seconds / 4)
            if other[2] is None:
                return f"{side} program rejected by clingo", [err.strip()]
            return None
        for m in ms:
            if time.time() - t0 > seconds:
                return None
            if admits(b, sorted(m), sr, seconds / 4) is False:
                return f"only {side}", sorted(m)
    return None


def explain(name, diff, seconds=20):
    """Fill in diff.witness for an emission difference."""
    if diff.kind == "require":
        diff.witness = (diff.detail, [])
        return
    p, q = run_real(name, diff.board), run_contract(name, diff.board)
    if p[0] != "normal" or q[0] != "normal":
        return
    diff.witness = guarded(lambda: witness(p[1], q[1], seconds), 3 * seconds + 10)


# ---------------------------------------------------------------------------------------------- making boards
class Vocab:
    """What boards of a puzzle type are made of, learnt from the pinned examples."""

    def __init__(self, name, boards):
        self.name = name
        self.consts = constants(name)
        self.maps = {m: [] for m in MAPS}
        self.margins = set()
        self.depth = max([1] + [-min(r, c) for b in boards for m in MAPS for r, c, *_ in b[m]])
        self.params = {}
        for b in boards:
            self.margins.add(tuple(b["margin"]))
            for k, v in b["param"].items():
                self.params.setdefault(k, [])
                if v not in self.params[k]:
                    self.params[k].append(v)
            for m in MAPS:
                for r, c, d, pos, v in b[m]:
                    where = self.where(r, c, b)
                    self.maps[m].append((where, d, pos, v))
        from .run import solver_class

        for k, d in (solver_class(name).parameters or {}).items():
            vs = self.params.setdefault(k, [])
            if d.get("type") == "checkbox":
                vs[:] = [True, False]
            elif d.get("type") == "select":
                ds = d.get("default")
                vs[:] = list(ds) if isinstance(ds, (list, tuple, dict)) else list(d.get("options", [ds]))
            elif d.get("type") == "number":
                vs[:] = [str(x) for x in vs] + ["0", "1", "2", "3", "", "x", "-1", " 2", "1_0"]
            else:
                vs[:] = [str(x) for x in vs] + ["", "AB"]

    @staticmethod
    def where(r, c, b):
        inside = 0 <= r < b["row"] and 0 <= c < b["col"]
        if inside:
            return "in"
        return ("top" if r < 0 else "bottom" if r >= b["row"] else "") + ("left" if c < 0 else "right" if c >= b["col"] else "")


SYMBOLS = ["circle_M__1", "circle_L__2", "ox_E__1", "ox_E__4", "arrow_B_W__3", "arrow_B_B__2", "arrow_cross__15", "star__2", "tri__1", "tents__3", "inequality__2", "dice__3"]
INTS = [0, 1, 1, 2, 2, 3, 4, 5, 7]


def constants(name):
    """The numbers that the source of a puzzle type mentions: boundaries worth trying."""
    import ast

    from .run import solver_class

    try:
        import inspect

        with open(inspect.getsourcefile(solver_class(name))) as f:
            tree = ast.parse(f.read())
    except (OSError, TypeError, SyntaxError):
        return []
    return sorted({n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) is int and 2 <= n.value <= 999})


def random_board(v, rnd, wild=0.05):
    """A random board over the vocabulary; `wild` is the chance of an unusual element."""
    rows, cols = rnd.randint(1, 5), rnd.randint(1, 5)
    sizes = [k for k in v.consts if 4 <= k <= 12]
    if rnd.random() < 0.1:
        rows, cols = rnd.choice([(rows, rnd.randint(6, 9)), (rnd.randint(6, 9), cols), (rnd.randint(5, 7), rnd.randint(5, 7))])
    elif sizes and rnd.random() < 0.15:
        k = rnd.choice(sizes) + rnd.randint(0, 2)
        rows, cols = rnd.choice([(k, cols), (rows, k), (k, k)])
    b = {"name": v.name, "row": rows, "col": cols, "margin": [1, 1, 1, 1], "param": {k: rnd.choice(x) for k, x in v.params.items()}}
    for m in MAPS:
        b[m] = []
        voc = v.maps[m]
        seen = set()
        if m == "edge":
            diag = any(d.startswith("DIAG") for _, d, _, _ in voc)
            dens = rnd.choice([0, 0.2, 0.5, 0.8])
            for r in range(rows + 1):
                for c in range(cols + 1):
                    for d in ("TOP", "LEFT") + (("DIAG_UP", "DIAG_DOWN") if diag else ()):
                        if (d == "TOP" and c == cols) or (d == "LEFT" and r == rows) or (d.startswith("DIAG") and (r == rows or c == cols)):
                            continue
                        border = (d == "TOP" and r in (0, rows)) or (d == "LEFT" and c in (0, cols))
                        if rnd.random() < (0.7 if border else dens * 0.6):
                            b[m].append([r, c, d, "normal", rnd.random() < 0.85])
            continue
        if m == "line":
            dens = rnd.choice([0, 0.1, 0.3])
            poss = sorted({p for _, _, p, _ in voc}) or ["l", "r", "u", "d"]
            if v.name != "hashi":
                poss = ["l", "r", "u", "d"]
            for r in range(rows):
                for c in range(cols):
                    for pos in poss:
                        if rnd.random() < dens:
                            b[m].append([r, c, "CENTER", pos, rnd.random() < 0.6])
            continue
        if m == "surface":
            dens = rnd.choice([0, 0.1, 0.3])
            names = ["BLACK", "GRAY", "GREEN"] if rnd.random() < 0.6 else ["BLACK", "GRAY"]
            for r in range(rows):
                for c in range(cols):
                    if rnd.random() < dens:
                        b[m].append([r, c, "CENTER", "normal", rnd.choice(names)])
            continue
        if not voc:
            if rnd.random() < wild:
                b[m].append([rnd.randrange(rows), rnd.randrange(cols), "CENTER", "normal", rnd.choice(INTS + ["?", "1_2"]) if m == "text" else rnd.choice(SYMBOLS)])
            continue
        dens = rnd.choice([0.05, 0.15, 0.3, 0.6])
        count = max(0, round(rows * cols * dens + rnd.choice([-1, 0, 1])))
        wheres = {w for w, *_ in voc}
        if any(w != "in" for w in wheres):
            count += rnd.randint(0, (rows + cols) * (v.depth if rnd.random() < 0.4 else 1))
        for _ in range(count):
            w, d, pos, x = rnd.choice(voc)
            r = -1 - (rnd.random() < 0.4) * rnd.randint(1, v.depth) if "top" in w else rows if "bottom" in w else rnd.randrange(rows)
            c = -1 - (rnd.random() < 0.4) * rnd.randint(1, v.depth) if "left" in w else cols if "right" in w else rnd.randrange(cols)
            if d in ("TOP_LEFT", "TOP") and rnd.random() < 0.2:
                r = rows
            if d in ("TOP_LEFT", "LEFT") and rnd.random() < 0.2:
                c = cols
            if isinstance(x, int) and rnd.random() < 0.7:
                x = rnd.choice(INTS) if rnd.random() < 0.9 else rnd.randint(0, rows * cols)
                if v.consts and rnd.random() < 0.15:
                    x = rnd.choice(v.consts) + rnd.choice([-1, 0, 1])
            if isinstance(x, str) and m == "text" and rnd.random() < 0.15 and not ("_" in x):
                x = "?"
            if rnd.random() < wild:
                x = rnd.choice([x, "?", 3, "", " ", "1_2", "A"]) if m == "text" else rnd.choice([x] + SYMBOLS)
                d = rnd.choice([d, "CENTER", "TOP", "TOP_LEFT"])
                pos = rnd.choice([pos, "normal", "sudoku_1"])
                r, c = rnd.choice([r, -1]), rnd.choice([c, -1])
            if (r, c, d, pos) in seen:
                continue
            seen.add((r, c, d, pos))
            b[m].append([r, c, d, pos, x])
    return b


def fix_params(b, v):
    """The front end sends text for everything but checkboxes."""
    b = copy.deepcopy(b)
    for k, x in b["param"].items():
        if not isinstance(x, bool):
            b["param"][k] = str(x)
    return b


def mutated(board, v, rnd):
    """A pinned board with a few elements changed, removed or added, and other parameters."""
    b = copy.deepcopy(board)
    for k, x in v.params.items():
        b["param"][k] = rnd.choice(x)
    for m in MAPS:
        if b[m] and rnd.random() < 0.5:
            for _ in range(rnd.randint(1, 3)):
                if not b[m]:
                    break
                i = rnd.randrange(len(b[m]))
                if rnd.random() < 0.5:
                    b[m].pop(i)
                elif v.maps[m]:
                    b[m][i][4] = rnd.choice(v.maps[m])[3]
    taken = {(r, c) for r, c, *_ in b["surface"]}
    if rnd.random() < 0.5:
        for _ in range(rnd.randint(1, 4)):
            r, c = rnd.randrange(b["row"]), rnd.randrange(b["col"])
            if (r, c) not in taken:
                taken.add((r, c))
                b["surface"].append([r, c, "CENTER", "normal", rnd.choice(["BLACK", "GRAY", "GREEN"])])
    have = {(r, c, d, p) for r, c, d, p, _ in b["line"]}
    if rnd.random() < 0.5 and (v.maps["line"] or rnd.random() < 0.3):
        for _ in range(rnd.randint(1, 4)):
            k = (rnd.randrange(b["row"]), rnd.randrange(b["col"]), "CENTER", rnd.choice("lrud") + (rnd.choice(["_1", "_2"]) if v.name == "hashi" else ""))
            if k not in have:
                have.add(k)
                b["line"].append([*k, rnd.random() < 0.6])
    have = {(r, c, d, p) for r, c, d, p, _ in b["edge"]}
    if rnd.random() < 0.5:
        for _ in range(rnd.randint(1, 4)):
            k = (rnd.randrange(b["row"] + 1), rnd.randrange(b["col"] + 1), rnd.choice(["TOP", "LEFT"]), "normal")
            if k not in have:
                have.add(k)
                b["edge"].append([*k, rnd.random() < 0.6])
    return b


def resized(board, v, rnd):
    """A pinned board with rows or columns added or cut off at the far end, and a few clues moved."""
    b = copy.deepcopy(board)
    for k, x in v.params.items():
        b["param"][k] = rnd.choice(x)
    rows = max(1, b["row"] + rnd.choice([0, 0, 1, 2, 3, -1, -2, -b["row"] // 2]))
    cols = max(1, b["col"] + rnd.choice([0, 0, 1, 2, 3, -1, -2, -b["col"] // 2]))
    for m in MAPS:
        new = {}
        for r, c, d, pos, x in b[m]:
            lr, lc = (b["row"], b["col"]) if m != "edge" and d == "CENTER" else (b["row"] + 1, b["col"] + 1)
            r = r if r < lr else r + rows - b["row"]
            c = c if c < lc else c + cols - b["col"]
            if m in ("text", "symbol") and rnd.random() < 0.05:
                r, c = (rnd.randrange(rows) if 0 <= r < rows else r), (rnd.randrange(cols) if 0 <= c < cols else c)
            if r < lr - b["row"] + rows and c < lc - b["col"] + cols or r >= lr or c >= lc:
                new[r, c, d, pos] = x
        b[m] = [[*k, x] for k, x in new.items()]
    b["row"], b["col"] = rows, cols
    return b


def spoiled(board, v, rnd):
    """A board with one thing about one clue changed, or one kind of element missing."""
    b = copy.deepcopy(board)
    maps = [m for m in ("text", "symbol") if b[m]]
    if not maps:
        return b
    m = rnd.choice(maps)
    if rnd.random() < 0.1:
        b[m] = []
        return b
    e = rnd.choice(b[m])
    what = rnd.choice(["direction", "position", "value", "value", "value", "cell", "twice", "gone"])
    if what == "gone":
        b[m].remove(e)
        return b
    n = list(e)
    if what == "direction":
        n[2] = rnd.choice([d for d in ("CENTER", "TOP", "LEFT", "TOP_LEFT") if d != e[2]])
    elif what == "position":
        n[3] = rnd.choice([x for x in (("normal", "sudoku_0", "sudoku_3", "tapa_1", "corner_2") if m == "text" else ("normal", "multiple", "nondango_mark")) if x != e[3]])
    elif what == "value":
        n[4] = rnd.choice(["?", "", " ", "A", "x", "1_2", "3_0", "_", "10", 0, 1, 9, 12, 50] if m == "text" else SYMBOLS + [e[4].rsplit("__", 1)[0] + f"__{k}" for k in (1, 2, 3, 4, 5, 6, 7, 8, 9)] + [e[4].replace("_B", "_W", 1), e[4].replace("_W", "_B", 1)] * 4)
    elif what == "cell":
        n[0], n[1] = rnd.choice([(-1, n[1]), (n[0], -1), (b["row"], n[1]), (n[0], b["col"]), (rnd.randrange(b["row"]), rnd.randrange(b["col"]))])
    else:
        n[rnd.choice([2, 3])] = rnd.choice(["LEFT", "normal"])
        n = [n[0], n[1], n[2] if n[2] in ("CENTER", "TOP", "LEFT", "TOP_LEFT") else "CENTER", n[3] if n[3] not in ("LEFT",) else "sudoku_1", rnd.choice(b[m])[4]]
    if any(x[:4] == n[:4] for x in b[m] if x is not e):
        return b
    if what == "twice":
        if n[:4] != e[:4]:
            b[m].append(n)
    else:
        b[m][b[m].index(e)] = n
    return b


def boards(name, seed=1, n=60):
    """Pinned boards, mutations of them, and small random ones; most of them boards that the contract accepts."""
    pin = pinned().get(name, [])
    v = Vocab(name, pin)
    rnd = random.Random(f"{name}/{seed}")
    small = sorted(pin, key=lambda b: b["row"] * b["col"])
    for b in small:
        yield fix_params(b, v)
    for i in range(n):
        for _ in range(10):
            if small and i % 4 == 0:
                b = mutated(rnd.choice(small[:3]), v, rnd)
            elif small and i % 4 == 2:
                b = resized(rnd.choice(small[:3]), v, rnd)
            elif i % 4 == 3:
                b = random_board(v, rnd, 0)
                for x in [rnd.choice(small[:3])] if small and rnd.random() < 0.7 else [random_board(v, rnd, 0) for _ in range(5)]:
                    b = fix_params(x, v)
                    if run_contract(name, b)[0] == "normal":
                        break
                b = spoiled(b, v, rnd)
                break
            else:
                b = random_board(v, rnd)
            if i % 8 in (1, 2, 4) or run_contract(name, b)[0] == "normal":
                break
        yield b


def sparse_board(v, rnd, k):
    """A small board with few elements of the usual kind."""
    for _ in range(20):
        b = random_board(v, rnd, 0)
        if b["row"] * b["col"] >= 2:
            break
    for m in ("symbol", "text", "surface", "line"):
        if len(b[m]) > k:
            b[m] = rnd.sample(b[m], k)
    if rnd.random() < 0.7:
        b["surface"], b["line"] = [], []
    return b


def hunt(name, seconds, seed=1):
    """Look for a board and an answer on which code and contract disagree; a Diff with a witness or None."""
    v = Vocab(name, pinned().get(name, []))
    rnd = random.Random(f"hunt/{name}/{seed}")
    t0 = time.time()
    i = late = 0
    while time.time() - t0 < seconds:
        b = sparse_board(v, rnd, (0, 1, 1, 2, 2, 3, 4)[i % 7]) if i % 5 else mutated(rnd.choice(pinned()[name]), v, rnd) if pinned().get(name) else sparse_board(v, rnd, 3)
        i += 1
        d = compare_board(name, b)
        if d is None:
            continue
        try:
            explain(name, d, 6)
        except TooLong:
            late += 1
            if late >= 2:
                return None
            continue
        except Exception:
            continue
        if d.witness:
            return d
    return None


def shrink(name, d, seconds=8, keep=lambda d: True):
    """The same kind of difference on a board with as few elements as possible."""
    t0 = time.time()
    best = d
    for m in MAPS:
        k = len(best.board[m])
        while k >= 1:
            i = 0
            while i < len(best.board[m]):
                if time.time() - t0 > seconds:
                    return best
                b = {**best.board, m: best.board[m][:i] + best.board[m][i + k:]}
                e = compare_board(name, b)
                if e is not None and e.kind == d.kind and keep(e):
                    best = e
                else:
                    i += k
            k //= 2
    return best


def search(name, seed=1, n=60, seconds=60, first=True, filt=None):
    """Differences found on boards; (list of Diff, boards tried)."""
    out, tried = [], 0
    t0 = time.time()
    for b in boards(name, seed, n):
        if time.time() - t0 > seconds:
            break
        tried += 1
        d = compare_board(name, b)
        if d is not None and (filt is None or filt(d)):
            out.append(d)
            if first:
                break
    return out, tried
