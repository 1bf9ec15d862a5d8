"""C23: every puzzle type is registered once with its own metadata."""
import json
import os
import random
import shutil
import string
import sys
import tempfile

from .common import *
from .history import forked
from .request import decide, prove

PINNED = f"{VERIF}/specs/metadata.json"


def package(rnd, d, pkg, n):
    """A directory of solver files; what must be registered."""
    os.makedirs(f"{d}/{pkg}")
    if rnd.random() < .8:
        open(f"{d}/{pkg}/__init__.py", "w").close()
    want, names = {}, set()
    while len(names) < n:
        w = "".join(rnd.choice(string.ascii_lowercase + "_0" + string.ascii_uppercase[:3]) for _ in range(rnd.randint(1, 6)))
        w = rnd.choice([w, w, f"{pkg}{w}", f"{w}_{pkg}", f"{w}{pkg}{w}", rnd.choice(["a", "b", "A", "loop", "num", "shade", "solver", "noqx", "types", "json", "py", "dotpy"])])
        if w.isidentifier() and not __import__("keyword").iskeyword(w):
            names.add(w)
    order = list(names)
    rnd.shuffle(order)
    for k, f in enumerate(order):
        cls = rnd.choice(["Solver_", "S", f"{f.title()}Solver", "Alpha"])
        meta = {"name": f"Name {k}", "category": rnd.choice(["loop", "num", "shade"]), "aliases": [f"alias{k}"] * rnd.randint(0, 2), "examples": [{"data": f"m={k}"}] * rnd.randint(0, 2), "parameters": {f"p{k}": {"type": "number", "default": k}} if rnd.random() < .5 else {}}
        shown = {x: v for x, v in meta.items() if rnd.random() < .8}
        want[f] = {**{"name": "Unknown", "category": "unk", "aliases": [], "examples": [], "parameters": {}}, **shown}
        extra = rnd.choice(["", "class Helper:\n    name = 'no solver'\n\n\n", "def solve():\n    pass\n\n\n"])
        body = "".join(f"    {x} = {v!r}\n" for x, v in shown.items())
        with open(f"{d}/{pkg}/{f}.py", "w") as h:
            h.write(f"from noqx.manager import Solver\n\n\n{extra}class {cls}(Solver):\n{body}\n    def solve(self, puzzle):\n        return 'program of {f}'\n\n    def refine(self, solution):\n        REFINED.append({f!r})\n        return solution\n\n\nREFINED = []\n")
    for junk in rnd.sample(["notes.txt", "data.json", "x.pyx"], rnd.randint(0, 2)):
        open(f"{d}/{pkg}/{junk}", "w").close()
    return want


def trial(seed, k):
    """One directory, loaded in a process of its own; None or what is wrong."""
    rnd = random.Random(f"registry/{seed}/{k}")
    d = tempfile.mkdtemp(prefix="registry")
    try:
        pkg = rnd.choice(["solver_dir", "extra", "puzzles", "s", "More"])
        want = package(rnd, d, pkg, rnd.randint(0, 7))
        double = rnd.random() < .15 and want
        broken = not double and rnd.random() < .1 and want
        victim = rnd.choice(sorted(want)) if want else None
        if double:
            with open(f"{d}/{pkg}/{victim}.py", "a") as h:
                h.write("\n\nclass Second(Solver):\n    pass\n")
        if broken:
            with open(f"{d}/{pkg}/{victim}.py", "a") as h:
                h.write("\n\nraise OSError('cannot be loaded')\n")
        early = rnd.sample(sorted(want), rnd.randint(0, min(2, len(want)))) if not broken else []
        r = forked(load_here, d, pkg, early, sorted(want), rnd.random() < .5)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    desc = {"directory": pkg, "files": sorted(want), "imported_before": early, "two_classes_in": victim if double else None, "fails_on_import": victim if broken else None}
    if r is None:
        return desc, "loading ends the process"
    kind, v = r
    if double:
        return None if kind == "ValueError" else (desc, f"a name registered twice gives {kind} {v}")
    if broken:
        return None if kind == "OSError" else (desc, f"a file that cannot be loaded gives {kind} {v}")
    if kind == "stranger":
        return desc, v
    if kind != "ok":
        return desc, f"loading raises {kind}: {v}"
    names, owners, meta, programs, refined = v
    if sorted(names) != sorted(want):
        return desc, f"registers {sorted(names)} for the files {sorted(want)}"
    for f in want:
        if owners[f] != f"{pkg}.{f}":
            return desc, f"{f} is answered by the solver of {owners[f]}"
        if programs[f] != f"program of {f}":
            return desc, f"a request for {f} gives the {programs[f]}"
        if refined[f] != [f]:
            return desc, f"the answer of {f} is refined by {refined[f]}"
    if meta != want:
        bad = [f for f in set(meta) | set(want) if meta.get(f) != want.get(f)]
        return desc, f"lists {bad[0]} with {meta.get(bad[0])}, its own metadata is {want.get(bad[0])}"
    return None


def load_here(d, pkg, early, files, twice):
    """Runs in a process of its own."""
    import importlib

    sys.path.insert(0, d)
    os.chdir(d)
    try:
        from noqx import manager
        from noqx.puzzle import Puzzle
        from noqx.puzzle.penpa import PenpaPuzzle

        manager.modules.clear()
        for f in early:
            importlib.import_module(f"{pkg}.{f}")
        manager.load_solvers(pkg)
        mods = manager.modules

        class Board:
            def __init__(self, n):
                self.puzzle_name, self.content, self.param = n, "", {}

        meta = manager.list_solver_metadata()
        if twice:
            meta = manager.list_solver_metadata()
        programs, refined = {}, {}
        PenpaPuzzle.decode = lambda self: None
        PenpaPuzzle.clear = lambda self: None
        PenpaPuzzle.__init__ = lambda self, n, c, p=None: self.__dict__.update(puzzle_name=n, content=c, param=p, text={}, symbol={}, surface={}, edge={}, line={})
        for f in files:
            if f in mods:
                programs[f] = manager.generate_program(Board(f))
                m = sys.modules[type(mods[f]).__module__]
                m.REFINED.clear()
                manager.store_solution(Board(f), "")
                refined[f] = list(m.REFINED)
        for f in files:
            for g in (f + "s", f.upper(), f.lower(), f.title(), f" {f}", f + "_", f[:-1], f[1:], f"{pkg}.{f}", ""):
                if g in files:
                    continue
                try:
                    return "stranger", f"a request for {g!r} is answered by {manager.generate_program(Board(g))!r}"
                except Exception:
                    pass
        return "ok", (list(mods), {k: type(v).__module__ for k, v in mods.items()}, meta, programs, refined)
    except Exception as e:
        return type(e).__name__, str(e)


def real(_=None):
    """The registry of /repo's own solver directory, in a process of its own."""
    os.chdir(REPO)
    from noqx import manager

    manager.modules.clear()
    manager.load_solvers("solver")
    files = sorted(f[:-3] for f in os.listdir(f"{REPO}/solver") if f.endswith(".py") and f != "__init__.py")
    out = {"files": files, "names": sorted(manager.modules), "owners": {k: type(v).__module__ for k, v in manager.modules.items()}, "meta": json.loads(json.dumps(manager.list_solver_metadata())), "attr": {}, "examples": {}}
    for k, m in manager.modules.items():
        c = type(m)
        out["attr"][k] = json.loads(json.dumps({f: getattr(c, f) for f in ("name", "category", "aliases", "examples", "parameters")}))
        for i, e in enumerate(c.examples):
            if "data" not in e:
                continue
            param = {n: e.get("config", {}).get(n, d["default"]) for n, d in c.parameters.items()}
            param = {n: str(v) if str(v).isdigit() else v for n, v in param.items()}
            try:
                p = manager.prepare_puzzle(k, e["data"], param)
                if p.puzzle_name != k:
                    out["examples"][k] = f"example {i} is prepared as {p.puzzle_name}"
                elif not manager.generate_program(p):
                    out["examples"][k] = f"example {i} gives an empty program"
            except Exception as x:
                out["examples"][k] = f"example {i} raises {type(x).__name__}: {x}"
    return out


def judge_real(v):
    if v is None:
        return [("load_solvers", "loading the solver directory fails")]
    out = []
    if v["names"] != v["files"]:
        out.append(("load_solvers", f"registered but no file: {sorted(set(v['names']) - set(v['files']))}, file but not registered: {sorted(set(v['files']) - set(v['names']))}"))
    pinned = json.load(open(PINNED))
    for k in sorted(set(v["names"]) & set(v["files"])):
        if v["owners"][k] != f"solver.{k}":
            out.append((k, f"answered by {v['owners'][k]}"))
        if v["meta"].get(k) != v["attr"][k]:
            out.append((k, f"listed with {str(v['meta'].get(k))[:200]}"))
        want = pinned.get(k)
        if want is not None:
            for f, x in want.items():
                if v["attr"][k][f] != x:
                    out.append((k, f"its {f} is {v['attr'][k][f]!r}, contracted is {x!r}"))
        if k in v["examples"]:
            out.append((k, v["examples"][k]))
    if sorted(v["meta"]) != v["names"]:
        out.append(("list_solver_metadata", f"lists {len(v['meta'])} of {len(v['names'])} types"))
    return out


def run(r, _):
    from specs import registry as S
    from pyvc.outcomes import explore

    res = [trial(SEED, k) for k in range(1500 if tier() == "thorough" else 150)]
    w = next((x for x in res if x), None)
    from noqx import manager

    bads = {}
    bads["noqx.manager.load_solvers"] = prove(r, "noqx.manager.load_solvers", lambda ex: explore(S.setup, lambda run_: run_.call(manager.load_solvers, [S.DIR], {}), ex), S.load_obligations)
    bads["noqx.manager.list_solver_metadata"] = prove(r, "noqx.manager.list_solver_metadata", lambda ex: explore(S.setup, lambda run_: run_.call(manager.list_solver_metadata, [], {}), ex), S.metadata_obligations)
    bads["noqx.manager.generate_program"] = prove(r, "noqx.manager.generate_program", lambda ex: explore(S.setup, lambda run_: run_.call(manager.generate_program, [S.Board()], {}), ex), S.generate_obligations)
    r.bounded_cases += len(res)
    if w:
        decide(r, "noqx.manager (registry)", [x for b in bads.values() for x in b or []], 0, w)
    else:
        for n, bad in bads.items():
            decide(r, n, bad or [], 0, None)
    v = forked(real, None)
    r.bounded_cases += len(v["names"]) if v else 1
    for k, what in judge_real(v)[:5]:
        r.violation(f"metadata/{k}", f"solver.{k}: {what}", {"function": f"solver.{k}", "what": what}, True)
    r.extra["distinct_nontrivial"] = len(res)
    r.extra["rule"] = "random directories of solver files (names with capitals, digits, the directory's name), loaded in a process of their own; and /repo's own directory"
    r.assume("pkgutil.iter_modules, import and __subclasses__ as stated in specs/registry.py", "a solver file defines one direct subclass of Solver; only one directory is loaded in a process",
             "the contracted name, category, aliases and parameters of each type are those in specs/metadata.json")
