"""C08: a request is solved independently of all earlier requests."""
import contextlib
import importlib
import os
import pickle
import random
import time

from .common import *
from . import solvercheck


# ------------------------------------------------------------------------------------------------------------ frames

def _frame(name):
    from pyvc import frames

    try:
        return frames.verify(name) if name else frames.verify_decoder()
    except Exception as e:  # the analysis has no rule for the code
        return {"name": name or "decoder and encoder", "error": f"{type(e).__name__}: {e}"}


class _one:
    def __init__(self, f):
        self.f = f

    def __call__(self, a):
        return self.f(*a)


# ----------------------------------------------------------------------------------------------------------- histories

def load_all():
    from noqx import manager
    from pyvc.run import solver_class

    for n in sorted(solvercheck.ALL):
        importlib.import_module(f"solver.{n}")
        if n not in manager.modules:
            manager.modules[n] = solver_class(n)()
    import clingo  # noqa: F401
    from pyvc import concrete
    from specs import codec, lib  # noqa: F401

    for n in sorted(solvercheck.ALL)[:3]:
        list(concrete.boards(n, 1, 3))


@contextlib.contextmanager
def plain_choice(patched):
    """Random choices fixed: the first element in order (or, when patched, rooms by their contract)."""
    from noqx.rule import helper
    from pyvc import concrete

    from .rooms import Choice

    if patched:
        with concrete.patched_rooms():
            yield
        return
    had = "random" in vars(helper)
    old = vars(helper).get("random")
    helper.random = Choice([], None)
    try:
        yield
    finally:
        if had:
            helper.random = old
        else:
            del helper.random


def request(name, item, patched=False, twice=False):
    """One request against the shared solver objects; what a client can observe of it."""
    from noqx import manager
    from pyvc import concrete

    random.seed(7)
    with plain_choice(patched):
        if isinstance(item, dict):
            p = concrete.load(item)
            out = concrete.outcome(lambda: manager.generate_program(p))
            if twice and out[0] == "normal":
                again = concrete.outcome(lambda: manager.generate_program(p))
                if again != out:
                    return "again", out, again
            return out
        content, param, atoms = item

        def go():
            p = manager.prepare_puzzle(name, content, dict(param))
            text = manager.generate_program(p)
            return text, manager.store_solution(p, atoms).encode() if atoms else ""

        return concrete.outcome(go)


def forked(f, *a):
    """f(*a) in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as h:
                pickle.dump(f(*a), h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def items_of(name, seed, n):
    """Requests for one puzzle type: boards (many of one size, some of them rejected) and full editor contents."""
    from pyvc import concrete

    rnd = random.Random(f"history/{name}/{seed}")
    v = concrete.Vocab(name, concrete.pinned().get(name, []))
    out = [b for b in concrete.boards(name, f"history{seed}", n)]
    pins = [concrete.fix_params(b, v) for b in concrete.pinned().get(name, [])]
    small = sorted(out, key=lambda b: b["row"] * b["col"])[: n // 2] + pins
    for b in rnd.sample(small, min(len(small), n // 2)) + pins[:2]:
        out.append(concrete.fix_params(concrete.mutated(b, v, rnd), v))
    from . import roles

    for b in pins[:2]:
        try:
            c = roles._content(b).content()
            out.append((c, b["param"], rnd.choice(["", "black(0,0)", "edge_top(0,0)", "number(0,0,3)"])))
        except Exception:
            continue
    rnd.shuffle(out)
    return out


def short(x):
    return {"board": x} if isinstance(x, dict) else {"content": x[0], "param": x[1], "atoms": x[2]}


def _pristine(job):
    """Every request of one puzzle type in a process without history; then all of them in one process."""
    name, seed, n, secs = job
    t0 = time.time()
    items = items_of(name, seed, n)
    out = {"name": name, "tried": 0, "rejected": 0, "diff": None, "items": items, "want": [], "patched": False}
    a = forked(request, name, items[0], False)
    random.seed(99)
    out["patched"] = patched = a != forked(request, name, items[0], False)
    for it in items:
        if time.time() - t0 > secs:
            break
        out["want"].append(forked(request, name, it, patched))
    k = len(out["want"])
    rnd = random.Random(f"order/{name}/{seed}")
    order = [i for _ in range(3) for i in rnd.sample(range(k), k)]
    done = []
    for i in order:
        if time.time() - t0 > 2 * secs:
            break
        got = request(name, items[i], patched, rnd.random() < .3)
        out["tried"] += 1
        out["rejected"] += got[0] == "raise"
        if got != out["want"][i] and not same(got, out["want"][i]):
            out["diff"] = shrink(name, items, out["want"], done, i, patched, got)
            if out["diff"]:
                break
        done.append(i)
    return out


def same(a, b):
    """Equal up to the order of statements (a set may be iterated in another order)."""
    if a[0] != "normal" or b is None or b[0] != "normal" or isinstance(a[1], tuple) != isinstance(b[1], tuple):
        return False
    x, y = (a[1], b[1]) if isinstance(a[1], str) else (a[1][0], b[1][0])
    if isinstance(a[1], tuple) and a[1][1] != b[1][1]:
        return False
    norm = lambda t: sorted("".join(sorted(line)) for line in t.split("\n") if line)
    return norm(x) == norm(y)


def replay(name, items, hist, i, patched):
    for j in hist:
        request(name, items[j], patched)
    return request(name, items[i], patched, True)


def shrink(name, items, want, done, i, patched, got):
    """The shortest history found after which request i is answered differently."""
    for hist in [[]] + [[j] for j in dict.fromkeys(reversed(done))][:60] + [done]:
        r = forked(replay_all, name, items, hist, i, patched)
        if r is not None and r != want[i] and not same(r, want[i]):
            return {"history": [short(items[j]) for j in hist][-3:], "history_length": len(hist), "request": short(items[i]),
                    "answer_alone": tuple(str(x)[:1500] for x in want[i]), "answer_after_history": tuple(str(x)[:1500] for x in r)}
    del got
    return None


def replay_all(name, items, hist, i, patched):
    return replay(name, items, hist, i, patched)


def _mixed(job):
    """Requests of all puzzle types in one process."""
    reqs, seed, secs = job
    t0 = time.time()
    rnd = random.Random(f"mixed/{seed}")
    rnd.shuffle(reqs)
    out = {"tried": 0, "diff": None}
    for name, it, want, patched in reqs:
        if time.time() - t0 > secs:
            break
        got = request(name, it, patched)
        out["tried"] += 1
        if got != want and not same(got, want):
            out["diff"] = {"type": name, "request": short(it), "after_requests": out["tried"], "answer_alone": tuple(str(x)[:1500] for x in want), "answer_after_history": tuple(str(x)[:1500] for x in got)}
            break
    return out


def run(r, _):
    thorough = tier() == "thorough"
    names = sorted(solvercheck.ALL)
    frames = solvercheck.run_pool(_one(_frame), [(n,) for n in ["", *names]], r, "frame")
    load_all()  # every worker below is a copy of this process, which has answered no request
    n, secs = (120, 40) if thorough else (36, 8)
    res = solvercheck.run_pool(_pristine, [(x, SEED, n, secs) for x in names], r, "history")
    found = set()
    for x in sorted(res, key=lambda x: x["name"]):
        r.bounded_cases += x["tried"]
        if x["diff"]:
            found.add(x["name"])
            d = x["diff"]
            r.violation(x["name"], f"solver.{x['name']}: a board is answered differently after {d['history_length']} other request(s)", {"function": f"solver.{x['name']}.solve", **d}, True)
    reqs = [(x["name"], it, w, x["patched"]) for x in sorted(res, key=lambda x: x["name"]) for it, w in zip(x["items"], x["want"]) if w is not None]
    for x in solvercheck.run_pool(_mixed, [(list(reqs), k, 40 if thorough else 15) for k in range(WORKERS)], r, "mixed history"):
        r.bounded_cases += x["tried"]
        if x["diff"] and not found:
            found.add(x["diff"]["type"])
            r.violation(f"mixed/{x['diff']['type']}", f"solver.{x['diff']['type']}: a board is answered differently after requests of other puzzle types", x["diff"], True)
    r.extra["distinct_nontrivial"] = sum(x["rejected"] for x in res)
    r.extra["rule"] = "histories of valid, changed and rejected boards of one and of all types in one process, each answer compared with the answer of a fresh process; non-trivial: rejected requests"

    open_, funcs = [], set()
    for x in sorted(frames, key=lambda x: x["name"]):
        if "error" in x:
            r.bounded.append({"function": x["name"], "why": x["error"]})
            continue
        bad, maybe = len(x["bad"]) + len(x["init_bad"]), len(x["maybe"]) + len(x["init_maybe"])
        r.add(x["sites"] + x["reads"], x["sites"] + x["reads"] - bad - maybe - len(x["owned"]), "ownership and initialisation rules")
        if not bad and not maybe and not x["owned"]:
            funcs |= set(x["functions"])
        for q, ln, what, why in x["owned"]:
            r.bounded.append({"function": q, "why": f"line {ln}: {what} changes the request's own puzzle object; that solving it again gives the same program is compared natively"})
        for m in x["maybe"] + x["init_maybe"]:
            r.bounded.append({"function": m[0], "why": f"line {m[1]}: {m[2]}"})
        for q, ln, what, why in x["bad"]:
            open_.append((x["name"], q, f"{q} line {ln}: {what} modifies {why}, which outlives the request"))
        for q, ln, attr in x["init_bad"]:
            open_.append((x["name"], q, f"{q} line {ln}: self.{attr} is read before this request has assigned it"))
    seen = set()
    for name, q, text in open_:
        if q in seen or found:
            continue
        seen.add(q)
        r.violation(q, text, {"function": q, "obligation": text, "verifier": "the frame condition of this function is not derivable"}, False)
    r.open += sorted({t for _, _, t in open_})
    r.functions = sorted(funcs)
    r.samples += [{"obligation": "solver.masyu.MasyuSolver.solve: every store goes to an object created in the call; self.program is assigned (reset) before it is read"}]
    r.assume("functions of the standard library and of clingo do not keep or change their arguments (mutating container methods excepted)",
             "random.choice is the only source of nondeterminism between equal requests (which rooms are numbered first, and which of several clue cells stands for a room)",
             "annotations of Puzzle's attributes state their contents truthfully (property C02)",
             "requests are answered one after the other within one process (the server awaits each solve)")
