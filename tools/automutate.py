"""Development aid: random small changes to solver/<name>.py, and which of them the check of the type would report.
usage: automutate.py PER_SOLVER SEED [names]; prints survivors (to be judged by hand: equivalent or missed)."""
import ast
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys

BASE = "/tmp/w/am"
RUN = r'''
import sys, json
repo, name = sys.argv[1:3]
sys.path.insert(0, "/verif")
import checks.common
from pyvc import worker
r = worker.verify(name, 100)
out = {"status": r["status"], "why": r["why"], "failed": sum(o["status"] == "failed" for o in r["open"]), "frac": r["proved"] / max(1, r["obligations"])}
if r["status"] != "proved":
    r = worker.settle(name, r, 1, 1500, 40)
    out["diffs"] = len(r["diffs"]); out["wit"] = any(d["witness"] for d in r["diffs"]); out["tried"] = r["tried"]
    out["d"] = [(d["kind"], d["detail"][:80]) for d in r["diffs"][:1]]
print("RESULT" + json.dumps(out))
'''


def spots(src):
    """(start, end, replacement, label) of possible edits."""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                if isinstance(s, ast.Assign):
                    for x in ast.walk(s):
                        skip.add(id(x))
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
            skip.add(id(n.body[0]))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("ValueError",):
            for x in ast.walk(n):
                if isinstance(x, ast.Constant):
                    skip.add(id(x))
        if isinstance(n, (ast.AnnAssign, ast.arg)):
            for x in ast.walk(n.annotation) if n.annotation else []:
                skip.add(id(x))
        if isinstance(n, ast.FunctionDef) and n.returns:
            for x in ast.walk(n.returns):
                skip.add(id(x))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "fail_false" and len(n.args) > 1:
            for x in ast.walk(n.args[1]):
                skip.add(id(x))
    out = []
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        a, b = span(n)
        text = raw[a:b].decode()
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = raw[a:span(n.left)[1]].decode(), raw[span(n.comparators[0])[0]:b].decode()
            alt = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"]}.get(type(n.ops[0]), [])
            for o in alt:
                out.append((a, b, f"{l} {o} {r}", "cmp"))
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            l, r = raw[a:span(n.values[0])[1]].decode(), raw[span(n.values[1])[0]:b].decode()
            out.append((a, b, f"{l} {'or' if isinstance(n.op, ast.And) else 'and'} {r}", "bool"))
            out.append((a, b, l, "bool-left"))
            out.append((a, b, r, "bool-right"))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((a, b, str(n.value + 1), "int"))
            if n.value:
                out.append((a, b, str(n.value - 1), "int"))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((a, b, str(not n.value), "flag"))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            l, r = raw[a:span(n.left)[1]].decode(), raw[span(n.right)[0]:b].decode()
            out.append((a, b, f"{l} {'-' if isinstance(n.op, ast.Add) else '+'} {r}", "arith"))
        elif isinstance(n, ast.If):
            t = n.test
            x, y = span(t)
            out.append((x, y, f"not ({raw[x:y].decode()})", "negate"))
            out.append((x, y, "True", "always"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if not text.startswith("self.reset"):
                out.append((a, b, "pass", "drop"))
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "Direction":
            alt = {"TOP": "LEFT", "LEFT": "TOP", "CENTER": "TOP", "TOP_LEFT": "CENTER"}.get(n.attr)
            if alt:
                out.append((a, b, f"Direction.{alt}", "direction"))
        elif isinstance(n, ast.Constant) and type(n.value) is str and not text.startswith(("'''", '"""')) and text[:1] in "\"'":
            for p, q in ((" not ", " "), ("R, C", "C, R"), ("!=", "="), (" < ", " <= "), (" > ", " >= "), ("black", "gray"), ("not black", "black"), ('lurd', 'lur'), ("R1, C1", "R, C"), ("lt", "le"), ("gt", "ge"), ("adj_4", "adj_8"), ("+", "-"), ("normal", "multiple"), ("edge", "4"), ("loop", "4")):
                k = text.find(p)
                if k >= 0:
                    out.append((a, b, text.replace(p, q, 1), "text"))
        elif isinstance(n, ast.JoinedStr):
            for p, q in ((" not ", " "), ("R, C", "C, R"), (" != ", " = "), (" < ", " <= "), (" > ", " >= "), ("+ 1", "- 1"), ("- 1", "+ 1"), ("{r}, {c}", "{c}, {r}"), ("{r}", "{r + 1}"), ("{num}", "{num + 1}"), (":-", ":- not black(0, 0),"), ("<=", "<"), ("black", "gray")):
                if p in text:
                    out.append((a, b, text.replace(p, q, 1), "fstr"))
        elif isinstance(n, ast.Call) and getattr(n.func, "id", "") == "range" and n.args:
            x, y = span(n.args[-1])
            out.append((x, y, raw[x:y].decode() + " - 1", "range"))
        elif isinstance(n, ast.Call) and n.keywords and len(n.keywords) > 0:
            for k in n.keywords:
                if isinstance(k.value, ast.Constant) and k.value.value is True:
                    pass
    seen, res = set(), []
    for s in out:
        if s not in seen:
            seen.add(s)
            res.append(s)
    return raw, res


def one(job):
    name, k, raw, s = job
    d = f"{BASE}/{name}-{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("noqx", "solver"):
        shutil.copytree(f"/repo/{x}", f"{d}/{x}", ignore=shutil.ignore_patterns("__pycache__"))
    a, b, new, label = s
    src = (raw[:a] + new.encode() + raw[b:]).decode()
    try:
        compile(src, name, "exec")
    except SyntaxError:
        shutil.rmtree(d, ignore_errors=True)
        return None
    open(f"{d}/solver/{name}.py", "w").write(src)
    try:
        p = subprocess.run(["python3-vt", "-c", RUN, d, name], capture_output=True, text=True, timeout=400, env={**os.environ, "VERIF_REPO": d})
        m = re.search(r"RESULT(.*)", p.stdout)
        res = json.loads(m.group(1)) if m else {"status": "crash", "why": p.stderr[-300:]}
    except subprocess.TimeoutExpired:
        res = {"status": "timeout"}
    shutil.rmtree(d, ignore_errors=True)
    line = raw[:a].count(b"\n") + 1
    return name, label, line, raw[a:b].decode()[:70].replace("\n", " "), new[:70].replace("\n", " "), res


def main():
    per, seed = int(sys.argv[1]), sys.argv[2]
    names = sys.argv[3:] or sorted(f[:-3] for f in os.listdir("/repo/solver") if f.endswith(".py") and f != "__init__.py")
    jobs = []
    for n in names:
        raw, ss = spots(open(f"/repo/solver/{n}.py").read())
        rnd = random.Random(seed + n)
        for k, s in enumerate(rnd.sample(ss, min(per, len(ss)))):
            jobs.append((n, k, raw, s))
    print(len(jobs), "changes", flush=True)
    tally = {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for x in ex.map(one, jobs):
            if x is None:
                continue
            name, label, line, old, new, r = x
            if r["status"] == "proved":
                v = "SURVIVES"
            elif r.get("wit"):
                v = "caught"
            elif r.get("diffs") and r["d"][0][0] == "require":
                v = "caught"
            elif r.get("diffs"):
                v = "caught-nfi"
            elif r["status"] == "open" and r.get("failed") and r["frac"] > 0.5:
                v = "failed-nfi"
            else:
                v = "SILENT"
            tally[v] = tally.get(v, 0) + 1
            if v != "caught":
                print(v, name, label, f"L{line}", repr(old), "->", repr(new), {k: w for k, w in r.items() if k not in ("wit",)} if v != "SURVIVES" else "", flush=True)
    print(tally)


main()
