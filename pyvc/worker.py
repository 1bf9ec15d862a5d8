"""One puzzle type, checked: contracts first, native comparison where they leave a question open."""
import signal
import time
import traceback

from . import concrete, match, modelboard, solvers
from .run import PRE, solver_class
from .values import Unsupported


class Deadline(BaseException):
    pass


def _stop(*_):
    raise Deadline()


def verify(name, seconds=240, roles=None):
    """Result dict of the deductive step (picklable)."""
    t0 = time.time()
    res = {"name": name, "status": "proved", "obligations": 0, "proved": 0, "syntactic": 0, "calls": 0, "solver_s": 0.0, "open": [], "why": "", "boards": []}
    old = signal.signal(signal.SIGALRM, _stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        obs, pr = solvers.verify(name, roles)
        res["obligations"] = len(obs)
        res["proved"] = sum(o.status == "proved" for o in obs)
        res["syntactic"] = sum(o.status == "proved" and o.detail == "syntactic" for o in obs)
        res["calls"], res["solver_s"] = pr.calls, round(pr.secs, 2)
        bad = [o for o in obs if o.status != "proved"]
        if not obs and roles is None:
            res["status"], res["why"] = "unsupported", "no obligation was generated"
        elif bad:
            res["status"] = "open"
        for o in bad:
            res["open"].append({"id": o.id, "status": o.status, "role": o.tag, "text": o.text[:600], "detail": o.detail})
        done, t1 = 0, time.time()
        for o in sorted(bad, key=lambda o: o.status != "failed"):
            if done >= 8 or time.time() - t1 > 40:
                break
            for size in (3, 5, 9, 13):
                try:
                    b = modelboard.board(name, o, PRE, solver_class(name).parameters, size)
                except Exception:
                    b = None
                if b:
                    res["boards"].append((o.id, b[0], b[1]))
                    done += 1
                    break
    except Deadline:
        res["status"], res["why"] = "unsupported", f"no result within {seconds} s"
    except Unsupported as e:
        res["status"], res["why"] = "unsupported", f"{getattr(e, 'where', '')} {e}".strip()
    except RecursionError:
        res["status"], res["why"] = "unsupported", "recursion too deep"
    except Exception as e:
        res["status"], res["why"] = "unsupported", f"{type(e).__name__}: {e} at {traceback.format_exc().splitlines()[-3].strip()}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    res["secs"] = round(time.time() - t0, 2)
    return res


def _unmarked(b):
    return {**b, "surface": [], "line": []}


def relevant(d, want, name=None):
    """Does the difference concern the roles in `want` (None: any)?"""
    if want is None:
        return True
    if d.kind == "require":
        return "require" in want
    tags = {t for t, _ in d.right if t}
    if tags & want:
        return True
    if "mark" in want and d.left and name:
        # statements that the drawn marks cause
        p = concrete.run_real(name, _unmarked(d.board))
        q = concrete.run_contract(name, _unmarked(d.board))
        if p[0] == q[0] == "normal":
            rest = {t for _, t in concrete.difference(p[1], q[1])[0]}
            if any(t not in rest for _, t in d.left):
                return True
    # statements only the code has: attribute them by their form
    return any(_role_of(x) in want for t, x in d.left)


def _role_of(text):
    return "show" if text.startswith("#show") else None


def settle(name, res, seed=1, n=60, seconds=60, want=None, marks_only=False):
    """Native comparison: fills res["tried"], res["diffs"] (JSON-able), with witnesses for up to six of them."""
    t0 = time.time()
    diffs, tried, agreed = [], 0, []
    for oid, b, faithful in res.get("boards", ()):
        tried += 1
        try:
            d = concrete.compare_board(name, b)
        except Exception:
            continue
        if d is not None and relevant(d, want, name):
            diffs.append(d)
        elif d is None and concrete.run_real(name, b)[0] == "normal" and faithful:
            agreed.append(oid)
    for b in concrete.boards(name, seed, n):
        if time.time() - t0 > seconds or len(diffs) >= 12:
            break
        tried += 1
        d = concrete.compare_board(name, b)
        if d is not None and relevant(d, want, name):
            diffs.append(d)
    late = 0
    diffs.sort(key=lambda d: (d.kind != "require", d.board["row"] * d.board["col"]))
    for d in diffs[:8]:
        try:
            concrete.explain(name, d, 15)
        except concrete.TooLong:  # a program that cannot be grounded; do not spend the check's time on it
            late += 1
            d.detail += " [no answer from clingo within the time and memory limits]"
            if late >= 2:
                break
        except Exception as e:  # clingo trouble is no witness
            d.detail += f" [{type(e).__name__}: {e}]"
        if d.witness:
            break
        if time.time() - t0 > seconds + 90:
            break
    if diffs and late < 2 and not any(d.witness for d in diffs):
        for d in diffs[:4]:
            try:
                e = concrete.shrink(name, d, 8, lambda e: relevant(e, want, name))
                if e is not d:
                    concrete.explain(name, e, 12)
            except Exception:
                continue
            if e.witness:
                diffs.insert(0, e)
                break
    if diffs and late < 2 and not any(d.witness for d in diffs):
        d = concrete.hunt(name, max(60, seconds), seed)
        if d is not None and relevant(d, want, name):
            diffs.insert(0, d)
    res["tried"] = tried
    res["agreed"] = agreed
    res["diffs"] = [{"board": d.board, "kind": d.kind, "only_code": d.left[:12], "only_contract": d.right[:12], "detail": d.detail, "witness": d.witness} for d in diffs]
    return res
