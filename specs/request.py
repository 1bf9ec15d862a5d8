"""Contracts of the request path (C22) and of the registry (C23), and the obligations proved from the code of /repo.

Contracts assumed of the other components:
  prepare_puzzle, generate_program, store_solution, Puzzle.encode   any duration, any result or any exception (C01-C21 say which)
  clingo.Control   add/ground collect the program; solve(on_model=f) calls f once per answer, in the order found, at most
                   configuration.solve.models of them (0: all), until it is exhausted or cancelled; handle.wait(t) returns
                   True within t if the search has ended, and False after t otherwise
  time.perf_counter, time.monotonic   the elapsed time; other clocks are unrelated to it
  starlette Request.json, JSONResponse   any body or any exception; a response with this content and status
"""
import builtins
import time

import z3

from pyvc.outcomes import *

L = z3.Real("time_limit")
M = z3.Int("max_solutions")
INERT = {("sat_prepro",), ("asp", "trans_ext"), ("asp", "eq"), ("solve", "parallel_mode")}


class Config(Ext):
    def __init__(self, control, path=()):
        self.control, self.path = control, path

    def attr(self, run, name):
        p = (*self.path, name)
        return self.control.config[p] if p in self.control.config else Config(self.control, p)

    def assign(self, run, name, v):
        self.control.config[(*self.path, name)] = v


class Control(Ext):
    def __init__(self, run):
        self.config, self.programs, self.grounded, self.depth = {}, [], False, len(run.loops)

    def attr(self, run, name):
        if name == "configuration":
            return Config(self)
        if name in ("add", "ground", "solve"):
            if len(run.loops) > self.depth:
                raise Unsupported("solver used in a loop")
            return PyFn(getattr(self, "do_" + name), f"Control.{name}")
        raise Unsupported(f"Control.{name}")

    def do_add(self, run, args, kw):
        if set(kw) == {"program"} and not args:
            p = kw["program"]
        elif len(args) == 1 and not kw:
            p = args[0]
        elif len(args) == 3 and not kw and args[0] == "base" and isinstance(args[1], (SList, list, tuple)) and not getattr(args[1], "segs", args[1]):
            p = args[2]
        else:
            raise Unsupported("Control.add")
        run.callee("Control.add", None, [RuntimeError, MemoryError])
        self.programs.append((p, self.grounded))

    def do_ground(self, run, args, kw):
        if args or kw:
            v = args[0] if args else next(iter(kw.values()))
            if len(args) + len(kw) != 1 or not isinstance(v, SList) or len(v.segs) != 1 or v.segs[0][0] != "base":
                raise Unsupported("Control.ground")
        run.callee("Control.ground", None, [RuntimeError, MemoryError])
        self.grounded = True

    def do_solve(self, run, args, kw):
        if args or not set(kw) <= {"on_model", "async_", "yield_"} or kw.get("yield_", False):
            raise Unsupported("Control.solve")
        extra = tuple(sorted((k, repr(v)) for k, v in self.config.items() if k not in INERT and k != ("solve", "models")))
        src = T("answers", tuple(p for p, late in self.programs if not late), self.grounded, self.config.get(("solve", "models"), 1), extra)
        h = Handle(run, src, kw.get("on_model"))
        run.out.setdefault("searches", []).append(h)
        if not kw.get("async_", False):
            run.callee("Control.solve", None, [RuntimeError, MemoryError])
            h.finished = h.endless = True
            h.deliver(run)
            return T("result")
        return h


class Handle(Ext):
    def __init__(self, run, src, cb):
        self.src, self.cb, self.finished, self.done, self.endless = src, cb, None, False, False

    def deliver(self, run):
        if self.done:
            return
        self.done = True
        if self.finished is None:  # cancelled without having waited
            self.finished = run.choose(2) == 0
        if self.cb is not None:
            run.loop(SList([Each(self.src, [T("model", self.src)])], len(run.loops)), lambda m: run.call(self.cb, [m], {}), Env())

    def attr(self, run, name):
        if name in ("wait", "cancel", "get", "resume"):
            return PyFn(getattr(self, "do_" + name), f"SolveHandle.{name}")
        raise Unsupported(f"SolveHandle.{name}")

    def do_wait(self, run, args, kw):
        t = args[0] if args else kw.get("timeout")
        if self.done or self.finished:
            run.passes()
            return True
        if t is None:
            run.passes()
            self.endless = True
            self.finished = True
            return True
        if not isinstance(t, (int, float, z3.ArithRef)):
            raise Unsupported("SolveHandle.wait")
        if not run.entails(lift(t) <= L):
            self.endless = True
        if run.choose(2) == 0:
            run.passes()  # the search ends while we wait
            self.finished = True
            return True
        run.passes(lo=t)
        self.finished = False
        return False

    def do_cancel(self, run, args, kw):
        run.passes()
        self.deliver(run)

    def do_get(self, run, args, kw):
        run.passes()
        if not self.done:
            self.endless = self.finished is None
            self.finished = True
        self.deliver(run)
        return T("result")

    def do_resume(self, run, args, kw):
        raise Unsupported("resume")

    def enter(self, run):
        return self

    def exit(self, run):
        run.passes()
        self.deliver(run)


def lift(t):
    return t if isinstance(t, z3.ExprRef) else z3.RealVal(t)


def clock(run, args, kw):
    return run.now


def other_clock(run, args, kw):
    return run.real("other_clock")


def sleeping(run, args, kw):
    run.passes(lo=args[0])


def callee(name, head):
    """Component function under its contract: a term of its arguments in declared order."""

    def f(run, args, kw):
        return run.callee(name, T(head, *args, *[kw[k] for k in kw]))

    return PyFn(f, name)


def by_signature(fn, name, head):
    import inspect

    sig = inspect.signature(fn)

    def f(run, args, kw):
        try:
            b = sig.bind(*args, **kw)
        except TypeError as x:
            raise Raised(Exc(TypeError, x.args, "call"))
        return run.callee(name, T(head, *b.args, *b.kwargs.values()))

    return PyFn(f, name)


def bad(run, text):
    return text


def category(cls):
    return "value error" if issubclass(cls, ValueError) else "timeout" if issubclass(cls, TimeoutError) else "other"


# ---------------------------------------------------------------------------------------------------------- run_solver

def encode(run, o, args, kw):
    if isinstance(o, T) and o.head in ("puzzle", "stored") and not args and not kw:
        return run.callee("encode", T("encoded", o))
    return NotImplemented


def decode(run, o, args, kw):
    return NotImplemented


def solver_setup(excs):
    import clingo
    from noqx import clingo as nc, manager

    def setup(run):
        def put(o, v):
            run.natives[id(o)] = (o, v)

        put(manager.prepare_puzzle, by_signature(manager.prepare_puzzle, "prepare_puzzle", "puzzle"))
        put(manager.generate_program, by_signature(manager.generate_program, "generate_program", "program"))
        put(manager.store_solution, by_signature(manager.store_solution, "store_solution", "stored"))
        put(clingo.Control, PyFn(lambda r, a, k: Control(r), "Control"))
        for f in (time.perf_counter, time.monotonic):
            put(f, PyFn(clock, "clock"))
        for f in (time.time, time.process_time, time.thread_time):
            put(f, PyFn(other_clock, "other clock"))
        put(time.sleep, PyFn(sleeping, "sleep"))
        run.nattrs[id(nc.Config), "time_limit"] = L
        run.nattrs[id(nc.Config), "max_solutions_to_find"] = M
        run.nattrs[id(nc.Config), "parallel_threads"] = z3.Int("parallel_threads")
        run.solver.add(L >= 0, M >= 0)
        run.attrs["encode"] = encode

    return setup


def solver_paths(excs):
    from noqx.clingo import run_solver

    a = [T("name"), T("content"), T("param")]
    return explore(solver_setup(excs), lambda run: run.call(run_solver, a, {}), excs)


def solver_obligations(p):
    """(name, holds, detail) of one path of run_solver."""
    run = p.run
    elapsed = run.now - run.t0
    out = [("the search is cut off at the time limit", not any(h.endless for h in run.out.get("searches", [])), "the search is waited for without limit")]
    first = run.failures[0] if run.failures else None
    puzzle = T("puzzle", T("name"), T("content"), T("param"))
    program = T("program", puzzle)
    if p.kind == "return":
        out.append(("no failure is reported as an answer", first is None, f"{first} is swallowed"))
        if first is None:
            src = T("answers", (program,), True, M, ())
            want = SDict([("url", SList([Each(src, [T("encoded", T("stored", puzzle, T("str", T("model", src))))])]))])
            out.append(("one encoded board per answer of the program, in order, at most the configured maximum", same(p.value, want), f"returns {p.value!r}"))
            hs = run.out.get("searches", [])
            out.append(("a search that was cut off is not reported as solved", bool(hs) and (all(h.finished for h in hs) or not run_possible(run)), "the search was not finished"))
            out.append(("a request that ran out of time is not reported as solved", run.entails(elapsed < L), "elapsed time may reach the limit"))
    else:
        e = p.value
        if first is not None:
            out.append(("a failure is reported by its own category", category(e.cls) == category(first.cls) or category(e.cls) == "timeout" and e is not first and run.entails(elapsed >= L), f"{first} ends as {e}"))
        else:
            out.append(("only the time limit makes a request without failure fail", category(e.cls) == "timeout", f"raises {e}"))
            out.append(("a timeout is reported only after the time limit", run.entails(elapsed >= L), "raised before the limit"))
    return out


def run_possible(run):
    return run.solver.check() != z3.unsat


# ---------------------------------------------------------------------------------------------------------- solver_api

class Request(Ext):
    def attr(self, run, name):
        if name == "json":
            return PyFn(lambda r, a, k: r.callee("Request.json", T("body")), "Request.json")
        raise Unsupported(f"Request.{name}")


def api_setup(main):
    from starlette.responses import JSONResponse
    from noqx import clingo as nc

    def response(run, args, kw):
        import inspect

        b = inspect.signature(JSONResponse).bind(*args, **kw)
        b.apply_defaults()
        run.event("response")
        if any(v is not None for k, v in b.arguments.items() if k not in ("content", "status_code")):
            raise Unsupported("headers of a response")
        return T("response", b.arguments["content"], b.arguments["status_code"])

    def setup(run):
        run.natives[id(nc.run_solver)] = (nc.run_solver, by_signature(nc.run_solver, "run_solver", "result"))
        run.natives[id(JSONResponse)] = (JSONResponse, PyFn(response, "JSONResponse"))

    return setup


def api_paths(main, excs):
    return explore(api_setup(main), lambda run: run.call(main.solver_api, [Request()], {}), excs)


def api_obligations(p):
    run = p.run
    first = run.failures[0] if run.failures else None
    item = lambda k: T("item", T("body"), k)
    out = []
    if p.kind != "return":
        return [("every request gets a response", False, f"raises {p.value}")]
    v = p.value
    ok = isinstance(v, T) and v.head == "response"
    out.append(("every request gets a response", ok, f"returns {v!r}"))
    if not ok:
        return out
    content, status = v.args
    if first is None:
        want = T("result", item("puzzle_name"), item("puzzle"), item("param"))
        out.append(("an answered request is reported with its result", same(content, want) and status == 200, f"status {status}, content {content!r}"))
    else:
        c = category(first.cls)
        code = {"value error": 400, "timeout": 504, "other": 500}[c]
        out.append((f"{c} is reported as such", status == code, f"{first} gives status {status}"))
        if c != "other":
            out.append((f"the report of a {c} says what failed", same(content, SDict([("detail", T("str", first))])), f"{first} gives {content!r}"))
    return out


# --------------------------------------------------------------------------------------------- wrappers of the deployment

def deploy_setup():
    from noqx import manager

    def setup(run):
        for n, h in (("prepare_puzzle", "puzzle"), ("generate_program", "program"), ("store_solution", "stored")):
            f = getattr(manager, n)
            run.natives[id(f)] = (f, by_signature(f, n, h))
        run.attrs["encode"] = encode
        run.attrs["to_py"] = lambda r, o, a, k: r.callee("to_py", T("py", o))

    return setup


def deploy_cases(mod):
    n, c, p, z, m = T("name"), T("content"), T("param"), T("puzzle"), T("atoms")
    w = mod.window
    return {
        "prepare_puzzle": (w.prepare_puzzle, [n, c, p], T("puzzle", n, c, T("py", p))),
        "generate_program": (w.generate_program, [z], T("program", z)),
        "store_solution": (w.store_solution, [z, m], T("encoded", T("stored", z, m))),
    }


def deploy_obligations(p, want):
    first = p.run.failures[0] if p.run.failures else None
    if p.kind != "return":
        return [("every call gets an outcome", False, f"raises {p.value}")]
    good = SDict([("success", True), ("result", want)]) if first is None else SDict([("success", False), ("result", T("str", first))])
    if isinstance(p.value, SDict):
        p.value.segs.sort(key=lambda s: s[0] != "success")
    return [("success with the result, or failure with its message", same(p.value, good), f"{first} gives {p.value!r}")]
