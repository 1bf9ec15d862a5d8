"""C22: a solve request ends in one well-defined outcome."""
import asyncio
import contextlib
import importlib
import importlib.util
import inspect
import io
import json
import logging
import os
import random
import sys
import types

from .common import *
from .shapes import Endless, limited


# ------------------------------------------------------------------------------------------------------------- loading

def load(path, name, argv=("main.py",)):
    """A module of /repo under another name (so that it neither serves nor writes anything)."""
    old, cwd = sys.argv, os.getcwd()
    root = list(logging.getLogger().handlers)
    sys.argv = list(argv)
    os.chdir(REPO)
    try:
        spec = importlib.util.spec_from_file_location(name, path)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        return m
    finally:
        sys.argv = old
        os.chdir(cwd)
        logging.getLogger().handlers[:] = root


def load_main(*argv):
    return load(f"{REPO}/main.py", "noqx_main_under_check", ("main.py", *argv))


def load_deploy():
    from noqx import manager

    manager.modules.clear()
    stub = types.ModuleType("pyscript")
    stub.window = types.SimpleNamespace()
    sys.modules["pyscript"] = stub
    return load(f"{REPO}/main_deploy.py", "noqx_deploy_under_check")


# -------------------------------------------------------------------------------------------------------------- native

class Clock:
    """Scripted time: every clock of the time module reads it."""

    def __init__(self):
        self.now = 1000.0

    def pass_(self, d):
        self.now += d


@contextlib.contextmanager
def replaced(pairs, modules):
    """Replace objects wherever the named modules hold them."""
    undo = []
    for old, new in pairs:
        for m in modules:
            for k, v in list(vars(m).items()):
                if v is old:
                    undo.append((m, k, v))
                    setattr(m, k, new)
    try:
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


class FakeHandle:
    def __init__(self, ctl, cb):
        self.ctl, self.cb, self.sent, self.over, self.used = ctl, cb, 0, False, 0.0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.cancel()
        return False

    def run(self, secs):
        """Let the search go on for secs seconds (None: to its end)."""
        s = self.ctl.script
        spent = self.used
        while not self.over:
            if self.sent >= len(self.ctl.found()):
                rest = s["tail"]
            else:
                rest = s["gaps"][self.sent]
            if secs is not None and spent + rest > self.used + secs:
                break
            spent += rest
            if self.sent >= len(self.ctl.found()):
                self.over = True
            else:
                self.cb(self.ctl.found()[self.sent])
                self.sent += 1
                if self.ctl.limit() and self.sent >= self.ctl.limit():
                    self.over = True
        d = spent - self.used if self.over or secs is None else secs
        self.used += d
        FakeControl.searched += d
        self.ctl.clock.pass_(d)
        return self.over

    def wait(self, timeout=None):
        return self.run(timeout)

    def cancel(self):
        self.over = True

    def get(self):
        self.run(None)
        return types.SimpleNamespace(satisfiable=bool(self.sent))

    def __iter__(self):
        while True:
            had = self.sent
            box = []
            cb, self.cb = self.cb, box.append
            n = self.sent
            s = self.ctl.script
            if not self.over and n < len(self.ctl.found()) and not (self.ctl.limit() and n >= self.ctl.limit()):
                self.ctl.clock.pass_(s["gaps"][n])
                self.used += s["gaps"][n]
                self.sent += 1
                box.append(self.ctl.found()[n])
            elif not self.over:
                self.ctl.clock.pass_(s["tail"])
                self.over = True
            self.cb = cb
            if self.sent == had:
                return
            yield box[0]


class FakeModel(str):
    """str(model) is what clingo prints of it."""

    def symbols(self, **kw):
        return str(self).split()


def name(script, i):
    """Answers come in no particular order, and different answers may show the same atoms."""
    return script.get("names", "3130592687211")[i % 13]


class FakeControl:
    script = clock = None

    def __init__(self, *a, **k):
        self.configuration = types.SimpleNamespace(asp=types.SimpleNamespace(), solve=types.SimpleNamespace(models=1, parallel_mode="1"))
        self.programs, self.grounded = [], None

    def add(self, *a, **k):
        p = k.get("program", a[-1] if a else None)
        self.fail("add")
        self.programs.append(p)

    def fail(self, where):
        self.clock.pass_(self.script["work"].get(where, 0.0))
        e = self.script["fail"].get(where)
        if e is not None:
            raise e

    def ground(self, *a, **k):
        self.fail("ground")
        self.grounded = list(self.programs)

    def limit(self):
        return int(self.configuration.solve.models)

    def found(self):
        return [FakeModel(f"model{name(self.script, i)}_of({'|'.join(self.grounded or [])})") for i in range(len(self.script["gaps"]))]

    def solve(self, *a, on_model=None, yield_=False, async_=False, **k):
        h = FakeHandle(self, on_model or (lambda m: None))
        if not (yield_ or async_):
            return h.get()
        return h


def native_solver(script):
    """run_solver against scripted components; the outcome."""
    import time

    import clingo
    from noqx import clingo as nc, manager

    clock = Clock()
    FakeControl.script, FakeControl.clock, FakeControl.searched = script, clock, 0.0

    class Board:
        def __init__(self, *a):
            self.a = a

        def encode(self):
            step("encode")
            return ("encoded", *self.a)

    count = {}

    def step(where):
        clock.pass_(script["work"].get(where, 0.0))
        count[where] = count.get(where, 0) + 1
        e = script["fail"].get(where)
        if e is not None and count[where] == (script.get("fail_at", 1) if where in ("store", "encode") else 1):
            raise e

    def prepare(puzzle_name, puzzle_content, param):
        step("prepare")
        return Board("puzzle", puzzle_name, puzzle_content, param)

    def generate(puzzle):
        step("generate")
        return "program_of_" + "_".join(map(str, puzzle.a))

    def store(puzzle, model_str):
        step("store")
        return Board("stored", puzzle.a, str(model_str))

    zero = lambda: clock.now
    pairs = [(manager.prepare_puzzle, prepare), (manager.generate_program, generate), (manager.store_solution, store), (clingo.Control, FakeControl),
             (time.perf_counter, zero), (time.monotonic, zero), (time.time, lambda: 0.0), (time.process_time, lambda: 0.0), (time.sleep, clock.pass_)]
    old = nc.Config.time_limit, nc.Config.max_solutions_to_find
    nc.Config.time_limit, nc.Config.max_solutions_to_find = script["limit"], script["max"]
    t = clock.now
    try:
        with replaced(pairs, [nc, manager, clingo, time]):
            try:
                out = ("return", nc.run_solver("n", "c", "p"))
            except Exception as e:
                out = ("raise", e)
    finally:
        nc.Config.time_limit, nc.Config.max_solutions_to_find = old
    return out, clock.now - t


def expected_solver(script):
    """What the request must end in."""
    where = ["prepare", "generate", "add", "ground"]
    spent = 0.0
    for w in where:
        spent += script["work"].get(w, 0.0)
        if script["fail"].get(w) is not None:
            return "fail", script["fail"][w]
    limit, n = script["limit"], len(script["gaps"])
    shown = min(n, script["max"]) if script["max"] else n
    search = sum(script["gaps"][:shown]) + (script["tail"] if shown == n and not (script["max"] and n >= script["max"]) else 0.0)
    if search > limit:
        return "cut", None
    spent += search
    prog = "program_of_puzzle_n_c_p"
    got = []
    for i in range(shown):
        for w in ("store", "encode"):
            spent += script["work"].get(w, 0.0)
            if script["fail"].get(w) is not None and i + 1 == script.get("fail_at", 1):
                return "fail", script["fail"][w]
        got.append(("encoded", "stored", ("puzzle", "n", "c", "p"), f"model{name(script, i)}_of({prog})"))
    if spent >= limit:
        return "late", None
    return "solved", {"url": got}


def judge_solver(script):
    """None, or what is wrong with the outcome of this request."""
    try:
        (kind, v), spent = limited(10, native_solver, script)
    except Endless:
        return "never ends"
    want, x = expected_solver(script)
    cat = lambda e: "value error" if isinstance(e, ValueError) else "timeout" if isinstance(e, TimeoutError) else "other"
    if want == "solved":
        if kind != "return":
            return f"raises {type(v).__name__}: {v} after {spent} s of {script['limit']}"
        return None if v == x else f"returns {v!r}, not {x!r}"
    if want == "cut" and FakeControl.searched > script["limit"] * 1.01 + 0.05:
        return f"searches for {FakeControl.searched} s, although the time limit is {script['limit']} s"
    if want in ("cut", "late"):
        if kind == "raise" and cat(v) == "timeout":
            return None
        if want == "cut" and kind == "raise" and v in script["fail"].values():
            return None  # an answer found in time could not be reported
        return f"{'reported as solved' if kind == 'return' else 'raises ' + type(v).__name__} after {spent} s of {script['limit']} (search {'cut off' if want == 'cut' else 'finished'})"
    if kind != "raise" or cat(v) != cat(x):
        if kind == "raise" and cat(v) == "timeout" and spent >= script["limit"]:
            return None
        return f"{type(x).__name__} in a component ends as {v!r}"
    return None


def scripts(rnd, n):
    """Requests: numbers of answers around the maximum, times around the limit, failures everywhere."""
    base = {"work": {}, "gaps": [], "tail": 0.0, "fail": {}, "limit": 30, "max": 10}
    for k in (0, 1, 2, 9, 10, 11, 12):
        yield {**base, "gaps": [0.0] * k}
        yield {**base, "gaps": [1.0] * k, "max": 3}
    for lim in (0.5, 1, 30):
        for search in (0, lim / 2, lim, lim * 2):
            for after in (0, lim / 2, lim):
                yield {**base, "limit": lim, "gaps": [search / 2], "tail": search / 2, "work": {"store": after}}
                yield {**base, "limit": lim, "gaps": [], "tail": search, "work": {"generate": after}}
                yield {**base, "limit": lim, "gaps": [search / 2] * 2, "tail": 0.0, "work": {"prepare": after / 2, "encode": after / 4}}
    errs = [ValueError("v"), UnicodeDecodeError("utf8", b"", 0, 1, "u"), json.JSONDecodeError("j", "", 0), TimeoutError("t"), KeyError("k"), TypeError("y"), RuntimeError("r"), MemoryError(), OSError("o"), AttributeError("a"), IndexError("i"),
            StopIteration("s"), ZeroDivisionError("z"), AssertionError("a"), Exception("e")]
    for e in errs:
        for w in ("prepare", "generate", "add", "ground", "store", "encode"):
            if w in ("add", "ground") and not isinstance(e, (RuntimeError, MemoryError)):
                continue
            yield {**base, "gaps": [0.0] * 3, "fail": {w: e}, "fail_at": rnd.randint(1, 3)}
    for _ in range(n):
        lim = rnd.choice([0.5, 2, 30])
        k = rnd.randint(0, 13)
        t = lambda: rnd.choice([0.0, 0.0, lim / 16, lim / 8, lim / 2])
        yield {**base, "limit": lim, "max": rnd.choice([1, 2, 5, 10]), "gaps": [rnd.choice([0.0, lim / 16, lim / 4]) for _ in range(k)], "tail": t(), "work": {w: t() for w in rnd.sample(["prepare", "generate", "add", "ground", "store", "encode"], 2)},
               "fail": {rnd.choice(["prepare", "generate", "store", "encode"]): rnd.choice(errs)} if rnd.random() < .2 else {}, "fail_at": rnd.randint(1, 4)}


def fuzz_solver(n):
    rnd = random.Random(f"request/{SEED}")
    tried = 0
    for s in scripts(rnd, n):
        tried += 1
        w = judge_solver(s)
        if w:
            return tried, (s, w)
    return tried, None


class FakeRequest:
    def __init__(self, body):
        self.body_ = body

    async def json(self):
        if isinstance(self.body_, Exception):
            raise self.body_
        return self.body_


def fuzz_api(main):
    """solver_api with every failure at both places, and malformed bodies."""
    from pyvc.outcomes import universe

    from noqx import clingo as nc

    good = {"puzzle_name": "masyu", "puzzle": "m=x", "param": {"a": 1}}
    tried = 0
    signature = inspect.signature(nc.run_solver)

    def call(body, outcome):
        def fake(*a, **k):
            if isinstance(outcome, Exception):
                raise outcome
            return {"url": list(signature.bind(*a, **k).args)}

        with replaced([(nc.run_solver, fake)], [nc, main]), contextlib.redirect_stderr(io.StringIO()):
            logging.disable(logging.CRITICAL)
            try:
                return asyncio.run(main.solver_api(FakeRequest(body)))
            finally:
                logging.disable(logging.NOTSET)

    def make(c):
        for a in (("what failed",), (), ("utf8", b"", 0, 1, "u"), ("m", "d", 0), ("u", 0, 1, "x"), ("m", [ValueError("x")])):
            try:
                return c(*a)
            except Exception:
                continue
        return None

    cases = [(good, None, 200)]
    for c in universe():
        e = make(c)
        if e is None:
            continue
        code = 400 if isinstance(e, ValueError) else 504 if isinstance(e, TimeoutError) else 500
        if c is not StopIteration and not issubclass(c, (StopIteration, StopAsyncIteration)):
            cases.append((good, e, code))
            cases.append((e, None, code))
    for k in good:
        cases.append(({x: y for x, y in good.items() if x != k}, None, 500))
    cases += [([], None, 500), (None, None, 500), ("text", None, 500), (3, None, 500)]
    for body, out, code in cases:
        tried += 1
        what = out if out is not None else body
        try:
            res = limited(10, call, body, out)
            got, content = res.status_code, json.loads(bytes(res.body))
        except (Exception, Endless) as e:
            return tried, (repr(what), f"no response but {type(e).__name__}: {e}")
        if body is not good and not isinstance(body, Exception) and got in (400, 500, 200 if isinstance(body, dict) and "param" not in body else 500):
            continue
        if got != code:
            return tried, (repr(what), f"status {got} instead of {code}")
        if code == 200 and content != {"url": ["masyu", "m=x", {"a": 1}]}:
            return tried, (repr(what), f"answers {content!r}")
        if code in (400, 504) and content != {"detail": str(what)}:
            return tried, (repr(what), f"answers {content!r}")
    return tried, None


def real_clingo():
    """ClingoSolver with the real clingo on programs with known answers."""
    from noqx import clingo as nc

    old = nc.Config.max_solutions_to_find, nc.Config.time_limit
    tried = 0
    try:
        for prog, n in [("{a;b;c}.", 8), ("a. :- a.", 0), ("a.", 1), ("", 1), ("{a}. #show.", 2), ("1{q(1..9)}1.", 9), ("{p(1..4)}. :- not p(1). #show p/1.", 8)]:
            for m in (1, 2, 5, 9, 10):
                nc.Config.max_solutions_to_find, nc.Config.time_limit = m, 20
                s = nc.ClingoSolver()
                s.solve(prog)
                got = s.solution()
                tried += 1
                if len(got) != min(n, m) or not all(isinstance(x, str) for x in got) or len(set(got)) != len(got) and "#show." not in prog:
                    return tried, (f"program {prog!r}, maximum {m}", f"{len(got)} answers: {got}")
        hard = "1{q(X,1..13)}1 :- X=1..14. :- q(X,Y), q(Z,Y), X<Z."
        nc.Config.max_solutions_to_find, nc.Config.time_limit = 10, 0.3
        tried += 1
        d = timed(hard, 15)
        if d is None or not 0.3 <= d < 15:
            return tried, ("a program too hard for the time limit of 0.3 s", "the search went on for 15 s" if d is None else f"the search ended after {d:.1f} s")
    finally:
        nc.Config.max_solutions_to_find, nc.Config.time_limit = old
    return tried, None


def timed(prog, most):
    """Seconds until the search of a hard program ends, in another process; None when it does not end."""
    import select
    import signal
    import time

    from noqx import clingo as nc

    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            t = time.perf_counter()
            s = nc.ClingoSolver()
            s.solve(prog)
            os.write(wr, str(time.perf_counter() - t).encode())
        finally:
            os._exit(0)
    os.close(wr)
    ready, _, _ = select.select([rd], [], [], most)
    data = os.read(rd, 100) if ready else b""
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    os.close(rd)
    return float(data) if data else None


def settings():
    """The command line sets the time limit and the number of threads."""
    from noqx import clingo as nc

    old = nc.Config.time_limit, nc.Config.parallel_threads
    tried = 0
    try:
        for argv, want in [((), old), (("-tl", "7"), (7, old[1])), (("--time_limit", "12", "-pt", "3"), (12, 3)), (("-pt", "2"), (old[0], 2)), (("--parallel_threads", "4"), (old[0], 4))]:
            nc.Config.time_limit, nc.Config.parallel_threads = old
            load_main(*argv)
            tried += 1
            if (nc.Config.time_limit, nc.Config.parallel_threads) != want:
                return tried, (f"main.py {' '.join(argv)}", f"time limit {nc.Config.time_limit}, threads {nc.Config.parallel_threads}")
    finally:
        nc.Config.time_limit, nc.Config.parallel_threads = old
    return tried, None


def fuzz_deploy(mod):
    from noqx import manager

    tried = 0

    class Py:
        def __init__(self, v):
            self.v = v

        def to_py(self):
            if isinstance(self.v, Exception):
                raise self.v
            return self.v

    class Board:
        def __init__(self, *a):
            self.a = a

        def encode(self):
            return ("encoded", *self.a)

        def __eq__(self, o):
            return isinstance(o, Board) and o.a == self.a

    for e in (None, ValueError("v"), KeyError("k"), RuntimeError("r"), TimeoutError("t"), Exception("e")):
        def fake(h):
            def f(*a, **k):
                if e is not None:
                    raise e
                return Board(h, *a, *k.values())
            return f

        pairs = [(getattr(manager, n), fake(h)) for n, h in (("prepare_puzzle", "puzzle"), ("generate_program", "program"), ("store_solution", "stored"))]
        with replaced(pairs, [manager, mod]):
            for got, good in [(lambda: mod.window.prepare_puzzle("n", "c", Py({"a": 1})), Board("puzzle", "n", "c", {"a": 1})), (lambda: mod.window.generate_program("z"), Board("program", "z")),
                              (lambda: mod.window.store_solution("z", "m"), ("encoded", "stored", "z", "m"))]:
                tried += 1
                want = {"success": True, "result": good} if e is None else {"success": False, "result": str(e)}
                try:
                    g = got()
                except Exception as x:
                    return tried, (repr(e), f"raises {type(x).__name__}: {x}")
                if g != want:
                    return tried, (repr(e), f"gives {g!r}, not {want!r}")
    return tried, None


# ----------------------------------------------------------------------------------------------------------------- run

def prove(r, name, paths_of, obligations):
    """Explore all paths of a function; failed obligations as texts, or None when no rule applies."""
    from pyvc.outcomes import universe
    from pyvc.values import Unsupported

    excs = universe()
    try:
        paths = paths_of(excs)
        obs = [o for p in paths for o in obligations(p)]
        if not any(p.kind == "return" and not p.run.failures for p in paths):
            raise Unsupported("no path answers a request")
    except (Unsupported, RecursionError, OSError, SyntaxError) as e:
        r.bounded.append({"function": name, "why": f"{type(e).__name__}: {e}"})
        return None
    bad = [(n, d) for n, ok, d in obs if not ok]
    r.add(len(obs), len(obs) - len(bad), "path execution with contracts (z3 for elapsed times)", len(paths))
    if not bad:
        r.functions.append(name)
    r.samples.append({"function": name, "paths": len(paths), "obligations": sorted({n for n, _, _ in obs})})
    return list(dict.fromkeys(bad))


def decide(r, name, bad, tried, witness):
    r.bounded_cases += tried
    if witness:
        r.violation(name, f"{name}: {witness[1]} (input: {str(witness[0])[:300]})", {"function": name, "input": witness[0], "outcome": witness[1], "failed_obligations": bad}, True)
    elif bad:
        r.open += [f"{name}: {n}: {d}" for n, d in bad]
        r.violation(name, f"{name}: {bad[0][0]}: {str(bad[0][1])[:300]}", {"function": name, "failed_obligations": bad[:20]}, False)


def run(r, _):
    from specs import request as S

    logging.disable(logging.CRITICAL)
    bad = prove(r, "noqx.clingo.run_solver (with ClingoSolver)", S.solver_paths, S.solver_obligations)
    tried, w = fuzz_solver(20000 if tier() == "thorough" else 1500)
    n, w2 = real_clingo()
    decide(r, "noqx.clingo.run_solver (with ClingoSolver)", bad or [], tried + n, w or w2)
    logging.disable(logging.NOTSET)

    main = load_main()
    bad = prove(r, "main.solver_api", lambda ex: S.api_paths(main, ex), S.api_obligations)
    tried, w = fuzz_api(main)
    n, w2 = settings()
    decide(r, "main.solver_api", bad or [], tried + n, w or w2)

    mod = load_deploy()
    tried, w = fuzz_deploy(mod)
    for k, (fn, args, want) in S.deploy_cases(mod).items():
        from pyvc.outcomes import explore

        name = f"main_deploy.{k}"
        bad = prove(r, name, lambda ex: explore(S.deploy_setup(), lambda run_: run_.call(fn, list(args), {}), ex), lambda p: S.deploy_obligations(p, want))
        decide(r, name, bad or [], tried if k == "prepare_puzzle" else 0, w if k == "prepare_puzzle" else None)
        if w and k != "prepare_puzzle" and bad:
            r.violations.pop()
    r.extra["distinct_nontrivial"] = r.bounded_cases
    r.extra["rule"] = "scripted requests: numbers of answers around the maximum, times around the limit, every exception class at every component"
    r.assume("contracts of clingo.Control, its handle and time.perf_counter as stated in specs/request.py", "exceptions that are no Exception (KeyboardInterrupt, task cancellation) end the process or the task and are no outcome of a request",
             "classes of exceptions: every built-in class, json's, and fresh subclasses of them; a handler cannot tell other classes apart than by their built-in bases",
             "starlette calls solver_api once per request and sends the response it returns")
