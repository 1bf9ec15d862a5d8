"""Development aid: rewrite all files of a copy of the repository without changing what they do, and run checks on it.
usage: refactor.py KIND[,KIND] "C17 C18" [subdirs]   (default subdirs: solver)"""
import ast
import copy
import glob
import os
import shutil
import subprocess
import sys


def locals_of(fn):
    s = {a.arg for a in fn.args.args}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
    return s


def own(body, kinds):
    """Nodes of the given kinds belonging to this loop (not to inner loops or functions)."""
    out = []

    def go(n):
        if isinstance(n, kinds):
            out.append(n)
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            return
        for c in ast.iter_child_nodes(n):
            go(c)

    for s in body:
        go(s)
    return out


def has(body, kinds):
    return any(isinstance(n, kinds) for s in body for n in ast.walk(s))


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, p):
        Base.n += 1
        return f"{p}_{Base.n}"


class Points(Base):
    def visit_For(self, f):
        self.generic_visit(f)
        t = f.target
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Tuple):
            v = self.fresh("point")
            f.body.insert(0, ast.Assign([t.elts[0]], ast.Name(v, ast.Load())))
            t.elts[0] = ast.Name(v, ast.Store())
        return f


class Flip(Base):
    def visit_If(self, i):
        self.generic_visit(i)
        if i.orelse and not (len(i.orelse) == 1 and isinstance(i.orelse[0], ast.If)):
            i.test, i.body, i.orelse = ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body
        return i


class Nest(Base):
    def visit_If(self, i):
        self.generic_visit(i)
        if not i.orelse and isinstance(i.test, ast.BoolOp) and isinstance(i.test.op, ast.And):
            for v in reversed(i.test.values[1:]):
                i.body = [ast.If(v, i.body, [])]
            i.test = i.test.values[0]
        return i


class Guard(Base):
    def visit_For(self, f):
        self.generic_visit(f)
        last = f.body[-1]
        if isinstance(last, ast.If) and not last.orelse:
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], []), *last.body]
        return f


class Concat(Base):
    def visit_JoinedStr(self, j):
        parts = []
        for p in j.values:
            if isinstance(p, ast.Constant):
                parts.append(p)
            elif p.format_spec is not None or p.conversion not in (-1, 115):
                return j
            else:
                parts.append(ast.Call(ast.Name("str", ast.Load()), [self.visit(p.value)], []))
        if not parts:
            return ast.Constant("")
        out = parts[0]
        for p in parts[1:]:
            out = ast.BinOp(out, ast.Add(), p)
        return out


class Format(Base):
    def visit_JoinedStr(self, j):
        s, args = "", []
        for p in j.values:
            if isinstance(p, ast.Constant):
                s += p.value.replace("{", "{{").replace("}", "}}")
            elif p.format_spec is not None or p.conversion not in (-1, 115):
                return j
            else:
                s += "{}"
                args.append(self.visit(p.value))
        return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])


class Percent(Base):
    def visit_JoinedStr(self, j):
        s, args = "", []
        for p in j.values:
            if isinstance(p, ast.Constant):
                s += p.value.replace("%", "%%")
            elif p.format_spec is not None or p.conversion not in (-1, 115):
                return j
            else:
                s += "%s"
                args.append(self.visit(p.value))
        return ast.BinOp(ast.Constant(s), ast.Mod(), ast.Tuple(args, ast.Load())) if args else ast.Constant(s.replace("%%", "%"))


class Join(Base):
    def visit_JoinedStr(self, j):
        parts = []
        for p in j.values:
            if isinstance(p, ast.Constant):
                parts.append(p)
            elif p.format_spec is not None or p.conversion not in (-1, 115):
                return j
            else:
                parts.append(ast.Call(ast.Name("str", ast.Load()), [self.visit(p.value)], []))
        return ast.Call(ast.Attribute(ast.Constant(""), "join", ast.Load()), [ast.List(parts, ast.Load())], [])


def is_add(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "add_program_line" and len(s.value.args) == 1


class Temp(Base):
    def visit_Expr(self, s):
        if is_add(s):
            v = self.fresh("line")
            a = s.value.args[0]
            s.value.args = [ast.Name(v, ast.Load())]
            return [ast.Assign([ast.Name(v, ast.Store())], a), s]
        return s


class Direct(Base):
    """self.program += text instead of add_program_line(text)."""

    def visit_Expr(self, s):
        if is_add(s) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "self":
            a = s.value.args[0]
            if isinstance(a, ast.JoinedStr) or isinstance(a, ast.Constant) and a.value:
                return ast.AugAssign(ast.Attribute(ast.Name("self", ast.Load()), "program", ast.Store()), ast.Add(), ast.BinOp(a, ast.Add(), ast.Constant("\n")))
        return s


class Alias(Base):
    def visit_FunctionDef(self, f):
        if f.name != "solve":
            return f
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_program_line" and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                n.func = ast.Name("add", ast.Load())
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(k, ast.Assign([ast.Name("add", ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), "add_program_line", ast.Load())))
        return f


class Product(Base):
    imp = "import itertools"

    def visit_For(self, f):
        self.generic_visit(f)
        r = lambda x: isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "range" and isinstance(x.target, ast.Name)
        if r(f) and len(f.body) == 1 and isinstance(f.body[0], ast.For) and r(f.body[0]) and not f.orelse and not f.body[0].orelse and not own(f.body[0].body, (ast.Break,)):
            g = f.body[0]
            if any(isinstance(n, ast.Name) and n.id == f.target.id for n in ast.walk(g.iter)):
                return f
            return ast.For(ast.Tuple([f.target, g.target], ast.Store()), ast.Call(ast.Attribute(ast.Name("itertools", ast.Load()), "product", ast.Load()), [f.iter, g.iter], []), g.body, [])
        return f


class Rename(Base):
    def visit_FunctionDef(self, f):
        a = {x.arg for x in f.args.args + f.args.kwonlyargs}
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - a
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = f"{n.id}_v"
        return f


class Shuffle(Base):
    """Runs of add_program_line statements in reverse order (reset and defines stay first)."""

    def runs(self, body):
        out, run = [], []
        for s in body:
            if is_add(s):
                run.append(s)
            else:
                out += run[::-1]
                run = []
                out.append(s)
        return out + run[::-1]

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.runs(f.body)
        return f

    def visit_For(self, f):
        self.generic_visit(f)
        f.body = self.runs(f.body)
        return f

    def visit_If(self, f):
        self.generic_visit(f)
        f.body, f.orelse = self.runs(f.body), self.runs(f.orelse)
        return f


class Loops(Base):
    """Top-level loops of solve over the board's maps in reverse order of each other where adjacent."""

    def visit_FunctionDef(self, f):
        if f.name != "solve":
            return f
        out, run = [], []
        ok = lambda s: isinstance(s, ast.For) and not has(s.body, (ast.Assign, ast.AugAssign, ast.Return, ast.Break)) and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "pop", "update", "setdefault") for n in ast.walk(s)) and not any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(s))
        for s in f.body:
            if ok(s):
                run.append(s)
            else:
                out += run[::-1] + [s]
                run = []
        f.body = out + run[::-1]
        return f


class While(Base):
    def visit_For(self, f):
        self.generic_visit(f)
        c = f.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and isinstance(f.target, ast.Name) and len(c.args) <= 2 and not f.orelse and not own(f.body, (ast.Continue,)):
            lo, hi = (ast.Constant(0), c.args[0]) if len(c.args) == 1 else c.args
            if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in ({f.target.id} | {x.id for x in ast.walk(hi) if isinstance(x, ast.Name)}) for s in f.body for n in ast.walk(s)):
                return f
            v = f.target.id
            return [ast.Assign([ast.Name(v, ast.Store())], lo), ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [hi]), [*f.body, ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return f


class Keys(Base):
    def visit_For(self, f):
        self.generic_visit(f)
        c = f.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "items" and not c.args and isinstance(f.target, ast.Tuple) and len(f.target.elts) == 2:
            k = self.fresh("key")
            a, b = f.target.elts
            f.iter = c.func.value
            f.body[0:0] = [ast.Assign([b], ast.Subscript(copy.deepcopy(c.func.value), ast.Name(k, ast.Load()), ast.Load())), ast.Assign([a], ast.Name(k, ast.Load()))]
            f.target = ast.Name(k, ast.Store())
        return f


class Sorted(Base):
    def visit_For(self, f):
        self.generic_visit(f)
        c = f.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "items" and not c.args:
            f.iter = ast.Call(ast.Name("list", ast.Load()), [c], [])
        return f


def free(body, loc):
    used = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in used:
                used.append(n.id)
    return used


def stores(body):
    return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


class ContToRet(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.Return(None)

    def visit_For(self, n):
        return n

    visit_While = visit_For


class Helper(Base):
    """Bodies of the loops of solve become methods (or functions, for module-level functions: skipped)."""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name == "solve":
                loc = locals_of(f)
                for i, s in enumerate(f.body):
                    if not isinstance(s, ast.For) or has(s.body, (ast.Return, ast.Yield)) or own(s.body, (ast.Break,)):
                        continue
                    st = stores(s.body)
                    outer = {n.id for j, o in enumerate(f.body) if j != i for n in ast.walk(o) if isinstance(n, ast.Name)}
                    if st & outer:
                        continue
                    if has(s.body, (ast.AugAssign,)) and any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) for b in s.body for n in ast.walk(b)):
                        continue
                    args = [v for v in free(s.body, loc) if v != "self" and (v not in st or v in stores([ast.Assign([s.target], ast.Constant(0))]))]
                    tgt = stores([ast.Assign([s.target], ast.Constant(0))])
                    args = [v for v in args if v in tgt or v in outer or v in {a.arg for a in f.args.args}]
                    name = self.fresh("_step")
                    body = [ContToRet().visit(b) for b in copy.deepcopy(s.body)]
                    new.append(ast.FunctionDef(name, ast.arguments([], [ast.arg("self"), *[ast.arg(a) for a in args]], None, [], [], None, []), body, [], None))
                    s.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], []))]
        c.body += new
        return c


class Inner(Base):
    """Bodies of the loops of solve become local functions."""

    def visit_ClassDef(self, c):
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name == "solve":
                out = []
                for i, s in enumerate(f.body):
                    if isinstance(s, ast.For) and not has(s.body, (ast.Return, ast.Yield)) and not own(s.body, (ast.Break,)):
                        st = stores(s.body)
                        tgt = stores([ast.Assign([s.target], ast.Constant(0))])
                        outer = {n.id for j, o in enumerate(f.body) if j != i for n in ast.walk(o) if isinstance(n, ast.Name)}
                        if not st & outer and not any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) for b in s.body for n in ast.walk(b)):
                            name = self.fresh("step")
                            args = sorted(tgt)
                            body = [ContToRet().visit(b) for b in copy.deepcopy(s.body)]
                            out.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body, [], None))
                            s.body = [ast.Expr(ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], []))]
                    out.append(s)
                f.body = out
        return c


class Phases(Base):
    def visit_ClassDef(self, c):
        for f in list(c.body):
            if isinstance(f, ast.FunctionDef) and f.name == "solve" and isinstance(f.body[-1], ast.Return):
                rets = [n for n in ast.walk(f) if isinstance(n, ast.Return)]
                if len(rets) != 1:
                    continue
                doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                rest = f.body[len(doc):-1]
                c.body.append(ast.FunctionDef("_build", copy.deepcopy(f.args), rest, [], None))
                f.body = [*doc, ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_build", ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], [])), f.body[-1]]
        return c


class Halves(Base):
    """solve split in two methods where no local flows across."""

    def visit_ClassDef(self, c):
        for f in list(c.body):
            if isinstance(f, ast.FunctionDef) and f.name == "solve" and isinstance(f.body[-1], ast.Return) and sum(isinstance(n, ast.Return) for n in ast.walk(f)) == 1:
                body = f.body[:-1]
                for k in range(len(body) // 2, len(body)):
                    a, b = body[:k], body[k:]
                    sa = {n.id for s in a for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                    lb = {n.id for s in b for n in ast.walk(s) if isinstance(n, ast.Name)}
                    if not sa & lb and b:
                        c.body.append(ast.FunctionDef("_finish", copy.deepcopy(f.args), b, [], None))
                        f.body = [*a, ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_finish", ast.Load()), [ast.Name(x.arg, ast.Load()) for x in f.args.args[1:]], [])), f.body[-1]]
                        break
        return c


class Demorgan(Base):
    def visit_BoolOp(self, b):
        self.generic_visit(b)
        op = ast.Or() if isinstance(b.op, ast.And) else ast.And()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in b.values]))


class SkipValues(ast.NodeTransformer):
    pass


class DemorganTests(Base):
    def visit_If(self, i):
        self.generic_visit(i)
        if isinstance(i.test, ast.BoolOp):
            i.test = Demorgan().visit(i.test)
        return i


class Comprehend(Base):
    """for x in it: self.add_program_line(e)  ->  lines = [e for x in it]; for line in lines: ..."""

    def visit_For(self, f):
        self.generic_visit(f)
        if len(f.body) == 1 and is_add(f.body[0]) and not f.orelse:
            v, w = self.fresh("lines"), self.fresh("line")
            e = f.body[0].value.args[0]
            call = copy.deepcopy(f.body[0])
            call.value.args = [ast.Name(w, ast.Load())]
            return [ast.Assign([ast.Name(v, ast.Store())], ast.ListComp(e, [ast.comprehension(f.target, f.iter, [], 0)])), ast.For(ast.Name(w, ast.Store()), ast.Name(v, ast.Load()), [call], [])]
        return f


class Size(Base):
    """rows, cols = puzzle.row, puzzle.col at the top of solve."""

    def visit_FunctionDef(self, f):
        if f.name != "solve":
            return f
        stored = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        if {"row", "col"} & stored:
            return f

        class R(ast.NodeTransformer):
            def visit_Attribute(self, a):
                self.generic_visit(a)
                if isinstance(a.value, ast.Name) and a.value.id == "puzzle" and a.attr in ("row", "col"):
                    return ast.Name({"row": "height", "col": "width"}[a.attr], ast.Load())
                return a

        f.body = [R().visit(s) for s in f.body]
        f.body.insert(0, ast.Assign([ast.Tuple([ast.Name("height", ast.Store()), ast.Name("width", ast.Store())], ast.Store())], ast.Tuple([ast.Attribute(ast.Name("puzzle", ast.Load()), x, ast.Load()) for x in ("row", "col")], ast.Load())))
        return f


class Filtered(Base):
    """for k, v in m.items(): if cond: body   ->   for k, v in ((k, v) for k, v in m.items() if cond): body"""

    def visit_For(self, f):
        self.generic_visit(f)
        if len(f.body) == 1 and isinstance(f.body[0], ast.If) and not f.body[0].orelse and isinstance(f.iter, ast.Call) and isinstance(f.iter.func, ast.Attribute) and f.iter.func.attr == "items":
            def load(t):
                t = copy.deepcopy(t)
                for n in ast.walk(t):
                    if hasattr(n, "ctx"):
                        n.ctx = ast.Load()
                return t

            i = f.body[0]
            f.iter = ast.ListComp(load(f.target), [ast.comprehension(copy.deepcopy(f.target), f.iter, [i.test], 0)])
            f.body = i.body
        return f


KINDS = {k.__name__.lower(): k for k in (Points, Flip, Nest, Guard, Concat, Format, Percent, Join, Temp, Direct, Alias, Product, Rename, Shuffle, Loops, While, Keys, Sorted, Helper, Inner, Phases, Halves, DemorganTests, Comprehend, Size, Filtered)}


def rewrite(path, kinds):
    src = open(path).read()
    t = ast.parse(src)
    before = ast.dump(t)
    for k in kinds:
        cls = KINDS[k]
        t = cls().visit(t)
        ast.fix_missing_locations(t)
        if hasattr(cls, "imp"):
            at = 1 if isinstance(t.body[0], ast.Expr) else 0
            t.body.insert(at, ast.parse(cls.imp).body[0])
    if ast.dump(t) == before:
        return False
    open(path, "w").write(ast.unparse(t) + "\n")
    return True


def prepare(kinds, subs, files=None):
    d = f"/tmp/w/rf/{'-'.join(kinds)}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "penpa-edit*", "__pycache__"))
    os.makedirs(f"{d}/penpa-edit")
    n = 0
    for s in subs:
        for p in sorted(glob.glob(f"{d}/{s}/*.py") if os.path.isdir(f"{d}/{s}") else [f"{d}/{s}"]):
            if files and os.path.basename(p)[:-3] not in files:
                continue
            n += rewrite(p, kinds)
    return d, n


if __name__ == "__main__":
    kinds = sys.argv[1].split(",")
    d, n = prepare(kinds, sys.argv[3:] or ["solver"])
    print(f"{'-'.join(kinds)}: {n} files rewritten", flush=True)
    for c in sys.argv[2].split():
        r = subprocess.run(["./check", c], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True, env={**os.environ, "VERIF_REPO": d, "VERIF_EVIDENCE": f"{d}/ev", "VERIF_TIER": "quick"})
        out = r.stdout.strip().splitlines()
        print(("ok  " if r.returncode == 0 else "BAD ") + c, "rc", r.returncode, *(out[:1] if r.returncode == 0 else out[:12]), r.stderr[-400:] if r.returncode not in (0, 1) else "", sep="\n    " if r.returncode else " ", flush=True)
    if "-k" not in sys.argv:
        shutil.rmtree(d, ignore_errors=True)
