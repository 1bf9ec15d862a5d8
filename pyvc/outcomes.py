"""Path-by-path verification of the request handling and registry code (properties C22 and C23).

A small symbolic executor for the control flow of this code: every value that comes from outside a function is an opaque
term, every call to another component is taken from that component's contract (all its outcomes: any return value, any
exception class, any duration), the clock is a real number that only grows, and a loop over a list of unknown length is
executed once for an arbitrary element (all its paths must have the same effect, which is then the effect of every
iteration).  Each path is one set of obligations, so a function is proved for all inputs, all list lengths, all failure
points and all elapsed times.  Statements without a rule raise Unsupported.
"""
import ast
import builtins
import inspect
import types

import z3

from .interp import REPO, func_ast
from .values import Unsupported


class T:
    """Opaque term."""

    __slots__ = ("head", "args")

    def __init__(self, head, *args):
        self.head, self.args = head, args

    def __eq__(self, o):
        return isinstance(o, T) and self.head == o.head and same(self.args, o.args)

    def __hash__(self):
        return hash(self.head)

    def __repr__(self):
        return f"{self.head}({', '.join(map(repr, self.args))})" if self.args else str(self.head)


def same(a, b):
    """Structural equality of values."""
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (SList, SDict)) and isinstance(b, (SList, SDict)):
        return type(a) is type(b) and same(a.segs, b.segs)
    if isinstance(a, Each) and isinstance(b, Each):
        return same(a.src, b.src) and same(a.vals, b.vals)
    if type(a) is not type(b):
        return False
    return a == b


class Each:
    """For every element of the source in order: these values."""

    __slots__ = ("src", "vals")

    def __init__(self, src, vals):
        self.src, self.vals = src, tuple(vals)

    def __repr__(self):
        return f"[{', '.join(map(repr, self.vals))} for each of {self.src}]"


class SList:
    def __init__(self, segs=(), depth=0):
        self.segs, self.depth = list(segs), depth

    def __repr__(self):
        return f"list{self.segs}"


class SDict:
    """Dictionary: items (key, value) or Each(src, [(key, value), ...])."""

    def __init__(self, segs=(), depth=0):
        self.segs, self.depth = list(segs), depth

    def __repr__(self):
        return f"dict{self.segs}"


class Obj:
    """Instance of a class of /repo."""

    def __init__(self, cls, depth):
        self.cls, self.attrs, self.depth = cls, {}, depth

    def __repr__(self):
        return f"<{self.cls.__name__}>"


class Exc:
    def __init__(self, cls, args, origin):
        self.cls, self.args, self.origin = cls, args, origin

    def __repr__(self):
        return f"{self.cls.__name__} from {self.origin}"


class Poison:
    def __repr__(self):
        return "<assigned in a loop>"


class Raised(Exception):
    def __init__(self, exc):
        self.exc = exc


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Closure:
    def __init__(self, node, env, glob, name):
        self.node, self.env, self.glob, self.name = node, env, glob, name


class Method:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def __repr__(self):
        return f"{self.obj}.{getattr(self.fn, '__name__', self.fn)}"


class PyFn:
    """Contract: f(run, args, kw) -> value or Raised."""

    def __init__(self, f, name="?"):
        self.f, self.name = f, name

    def __repr__(self):
        return f"<{self.name}>"


class Ext:
    """Object of another component; attribute access and assignment by its contract."""

    def attr(self, run, name):
        raise Unsupported(f"attribute {name} of {type(self).__name__}")

    def assign(self, run, name, value):
        raise Unsupported(f"assignment to attribute {name} of {type(self).__name__}")


class Env:
    def __init__(self, parent=None):
        self.vars, self.parent = {}, parent

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


class Fork(Exception):
    pass


class LoopFrame:
    def __init__(self, src, env):
        self.src, self.env = src, env
        self.grown = {}  # id -> (container, segments before)
        self.assigned = set()
        self.events = 0


class Path:
    def __init__(self, kind, value, run):
        self.kind, self.value, self.run = kind, value, run


def universe(extra=()):
    """Exception classes a callee may raise: every built-in one, a fresh subclass of each, and the ones named by handlers."""
    base = [c for c in vars(builtins).values() if isinstance(c, type) and issubclass(c, Exception) and not issubclass(c, Warning)]
    import json

    base = list(dict.fromkeys([*base, json.JSONDecodeError, *extra]))
    return base + [type(f"Some{c.__name__}", (c,), {}) for c in base if c in (Exception, ValueError, TimeoutError, KeyError, OSError, RuntimeError)]


class Run:
    """One path."""

    def __init__(self, setup, decisions, excs, limit=4000):
        self.decisions, self.pos, self.excs = list(decisions), 0, excs
        self.made = []  # (number of options) for each decision taken
        self.solver = z3.Solver()
        self.fresh_n = 0
        self.now = z3.Real("t0")
        self.t0 = self.now
        self.trace = []
        self.failures = []  # exceptions raised by callees, in order
        self.loops = []
        self.summaries = []
        self.facts = {}
        self.natives, self.attrs, self.nattrs = {}, {}, {}
        self.fuel = 20000
        self.inline = 0
        self.limit = limit
        self.out = {}
        setup(self)

    # ------------------------------------------------------------------ choices
    def choose(self, n, what=""):
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            k = self.decisions[self.pos]
        else:
            k = 0
            self.decisions.append(0)
        self.pos += 1
        self.made.append(n)
        return k

    def decide(self, cond):
        """Truth of a z3 condition, both ways if both are possible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            return z3.is_true(cond)
        y, n = self.possible(cond), self.possible(z3.Not(cond))
        if y and n:
            v = self.choose(2) == 0
        else:
            v = y
        self.solver.add(cond if v else z3.Not(cond))
        return v

    def possible(self, cond):
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown:
            raise Unsupported("undecided path condition")
        return r == z3.sat

    def entails(self, cond):
        return not self.possible(z3.Not(cond))

    def ask(self, term):
        """Truth of an opaque condition."""
        key = repr(term)
        if key not in self.facts:
            self.facts[key] = self.choose(2) == 0
        return self.facts[key]

    def real(self, name):
        self.fresh_n += 1
        return z3.Real(f"{name}!{self.fresh_n}")

    def passes(self, lo=None, hi=None):
        """Time passes: at least lo, at most hi."""
        d = self.real("d")
        self.solver.add(d >= 0)
        if lo is not None:
            self.solver.add(d >= lo)
        if hi is not None:
            self.solver.add(d <= hi)
        self.now = self.now + d
        return d

    def event(self, *e):
        self.trace.append(e)

    def callee(self, name, value, excs=None):
        """Call of another component: any duration, then the value or any exception."""
        self.passes()
        excs = self.excs if excs is None else excs
        k = self.choose(1 + len(excs))
        if k:
            e = Exc(excs[k - 1], (T("message", name),), name)
            self.failures.append(e)
            raise Raised(e)
        return value

    # ------------------------------------------------------------------ statements
    def block(self, body, env, glob):
        for st in body:
            self.stmt(st, env, glob)

    def stmt(self, st, env, glob):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("out of fuel")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st, env, glob)

    def s_Expr(self, st, env, glob):
        self.eval(st.value, env, glob)

    def s_Pass(self, st, env, glob):
        pass

    def s_Global(self, st, env, glob):
        raise Unsupported("global statement")

    def s_Import(self, st, env, glob):
        import importlib

        for a in st.names:
            m = importlib.import_module(a.name)
            self.bind(a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]), env)

    def s_ImportFrom(self, st, env, glob):
        import importlib

        if st.level:
            raise Unsupported("relative import")
        m = importlib.import_module(st.module)
        for a in st.names:
            self.bind(a.asname or a.name, getattr(m, a.name), env)

    def s_Assert(self, st, env, glob):
        if not self.truth(self.eval(st.test, env, glob)):
            raise Raised(Exc(AssertionError, (), "assert"))

    def s_FunctionDef(self, st, env, glob):
        if st.decorator_list:
            raise Unsupported("decorated local function")
        self.bind(st.name, Closure(st, env, glob, st.name), env)

    s_AsyncFunctionDef = s_FunctionDef

    def s_Assign(self, st, env, glob):
        v = self.eval(st.value, env, glob)
        for t in st.targets:
            self.assign(t, v, env, glob)

    def s_AnnAssign(self, st, env, glob):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env, glob), env, glob)

    def s_AugAssign(self, st, env, glob):
        t = st.target
        load = ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, "ctx": ast.Load()}), t)
        cur = self.eval(load, env, glob)
        v = self.eval(st.value, env, glob)
        if isinstance(cur, SList) and isinstance(st.op, ast.Add):
            self.extend(cur, v)
            return
        self.assign(t, self.binop(st.op, cur, v), env, glob)

    def s_Return(self, st, env, glob):
        raise Return(None if st.value is None else self.eval(st.value, env, glob))

    def s_If(self, st, env, glob):
        self.block(st.body if self.truth(self.eval(st.test, env, glob)) else st.orelse, env, glob)

    def s_Raise(self, st, env, glob):
        if st.exc is None:
            e = env.find("$exc")
            if e is None:
                raise Unsupported("raise without exception")
            raise Raised(e.vars["$exc"])
        v = self.eval(st.exc, env, glob)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = Exc(v, (), "raise")
        if not isinstance(v, Exc):
            raise Unsupported("raise of this value")
        raise Raised(v)

    def handler_classes(self, h, env, glob):
        if h.type is None:
            return (BaseException,)
        v = self.eval(h.type, env, glob)
        vs = v if isinstance(v, tuple) else (v,)
        if not all(isinstance(c, type) and issubclass(c, BaseException) for c in vs):
            raise Unsupported("exception class of a handler")
        return vs

    def s_Try(self, st, env, glob):
        def inner():
            try:
                self.block(st.body, env, glob)
            except Raised as r:
                for h in st.handlers:
                    cs = self.handler_classes(h, env, glob)
                    if issubclass(r.exc.cls, cs):
                        if any(c not in self.excs and any(issubclass(c, x) for x in self.excs if x is not Exception) and c is not BaseException for c in cs):
                            self.out["unlisted handler"] = True
                        old = env.vars.get("$exc")
                        env.vars["$exc"] = r.exc
                        if h.name:
                            self.bind(h.name, r.exc, env)
                        try:
                            self.block(h.body, env, glob)
                        finally:
                            if old is None:
                                env.vars.pop("$exc", None)
                            else:
                                env.vars["$exc"] = old
                            if h.name:
                                env.vars.pop(h.name, None)
                        return
                raise
            else:
                self.block(st.orelse, env, glob)

        try:
            inner()
        except (Raised, Return):
            if st.finalbody:
                self.block(st.finalbody, env, glob)
            raise
        if st.finalbody:
            self.block(st.finalbody, env, glob)

    def s_With(self, st, env, glob):
        self.with_items(list(st.items), st.body, env, glob)

    s_AsyncWith = s_With

    def with_items(self, items, body, env, glob):
        if not items:
            self.block(body, env, glob)
            return
        it = items[0]
        c = self.eval(it.context_expr, env, glob)
        if not isinstance(c, Ext) or not hasattr(c, "enter"):
            raise Unsupported("context manager")
        v = c.enter(self)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env, glob)
        try:
            self.with_items(items[1:], body, env, glob)
        except (Raised, Return):
            c.exit(self)
            raise
        c.exit(self)

    def s_Delete(self, st, env, glob):
        for t in st.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported("del")
            env.vars.pop(t.id, None)

    def s_For(self, st, env, glob):
        def body(v):
            self.assign(st.target, v, env, glob)
            self.block(st.body, env, glob)

        for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
            if isinstance(n, (ast.Break, ast.Continue)):
                raise Unsupported("break or continue")
        self.loop(self.eval(st.iter, env, glob), body, env)
        self.block(st.orelse, env, glob)

    # ------------------------------------------------------------------ loops
    def loop(self, v, body, env):
        for s in list(self.iterate(v)):
            if isinstance(s, Each):
                for x in s.vals:
                    if len(s.vals) > 1:
                        raise Unsupported("several elements per element of the source")
                self.generic(s, body, env)
            else:
                body(s)

    def iterate(self, v):
        if isinstance(v, (list, tuple, str, range)):
            return list(v)
        if isinstance(v, SList):
            self.readable(v)
            return v.segs
        if isinstance(v, SDict):
            self.readable(v)
            return [Each(s.src, [k for k, _ in s.vals]) if isinstance(s, Each) else s[0] for s in v.segs]
        raise Unsupported(f"iteration over {type(v).__name__} {v}")

    def readable(self, c):
        for f in self.loops:
            if id(c) in f.grown and len(c.segs) != f.grown[id(c)][1]:
                raise Unsupported("reading a container that grows in the loop")

    def generic(self, s, body, env):
        """One arbitrary iteration; its effect is the effect of every iteration."""
        if any(same(f.src, s.src) for f in self.loops):
            raise Unsupported("nested loops over one list")
        f = LoopFrame(s.src, env)
        f.events = len(self.trace)
        before = len(self.decisions[: self.pos])
        prefix = tuple(self.decisions[: self.pos])
        saved = dict(env.vars)
        start = self.now
        self.now = self.real("t")
        self.solver.add(self.now >= start)
        self.loops.append(f)
        try:
            body(s.vals[0])
        except Return:
            raise Unsupported("return inside a loop over a list of unknown length")
        finally:
            self.loops.pop()
        later = self.real("t")
        self.solver.add(later >= self.now)
        self.now = later
        effects = []
        for c, n in f.grown.values():
            new = c.segs[n:]
            if new:
                del c.segs[n:]
                if any(isinstance(x, Each) for x in new):
                    raise Unsupported("nested growth")
                c.segs.append(Each(s.src, new))
                effects.append(repr(new))
                self.grows(c, n)
        ev = self.trace[f.events:]
        del self.trace[f.events:]
        if ev:
            self.trace.append(("for each", s.src, tuple(ev)))
            effects.append(repr(ev))
        for n, v in list(env.vars.items()):
            if n not in saved or saved[n] is not v:
                env.vars[n] = Poison()
        for o, a in f.assigned:
            o.attrs[a] = Poison()
            effects.append(f"{o}.{a}")
        del before
        self.summaries.append(((repr(s.src), len(self.summaries)), prefix, tuple(effects)))

    def grows(self, c, n=None):
        """Container c is about to grow (or has grown in an inner loop)."""
        for f in self.loops:
            if c.depth < self.loops.index(f) + 1 and id(c) not in f.grown:
                f.grown[id(c)] = (c, len(c.segs) if n is None else n)

    def append(self, c, v):
        self.grows(c)
        c.segs.append(v)

    def extend(self, c, v):
        if isinstance(v, (list, tuple)):
            for x in v:
                self.append(c, x)
        elif isinstance(v, SList):
            self.readable(v)
            if self.loops and c.depth < len(self.loops):
                raise Unsupported("extension in a loop")
            for x in v.segs:
                self.append(c, x)
        else:
            raise Unsupported("extension by this value")

    # ------------------------------------------------------------------ assignment
    def bind(self, name, v, env):
        env.vars[name] = v

    def assign(self, t, v, env, glob):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, SList) and not any(isinstance(x, Each) for x in v.segs):
                v = v.segs
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env, glob)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env, glob), t.attr, v)
        elif isinstance(t, ast.Subscript):
            c, k = self.eval(t.value, env, glob), self.eval(t.slice, env, glob)
            if not isinstance(c, SDict):
                raise Unsupported("item assignment")
            self.setitem(c, k, v)
        else:
            raise Unsupported("assignment target")

    def setitem(self, c, k, v):
        if not self.loops or c.depth >= len(self.loops):
            for i, s in enumerate(c.segs):
                if not isinstance(s, Each) and same(s[0], k):
                    c.segs[i] = (k, v)
                    return
        self.grows(c)
        c.segs.append((k, v))

    def setattr(self, o, name, v):
        if isinstance(o, Ext):
            return o.assign(self, name, v)
        if isinstance(o, Obj):
            for i, f in enumerate(self.loops):
                if o.depth < i + 1:
                    f.assigned.add((o, name))
            o.attrs[name] = v
            return
        raise Unsupported(f"assignment to attribute {name}")

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env, glob):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        v = m(e, env, glob)
        if isinstance(v, Poison):
            raise Unsupported("value assigned in a loop")
        return v

    def e_Constant(self, e, env, glob):
        return e.value

    def e_Name(self, e, env, glob):
        f = env.find(e.id)
        if f is not None:
            return f.vars[e.id]
        if e.id in glob:
            return self.native_value(glob[e.id])
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise Raised(Exc(NameError, (e.id,), "name"))

    def native_value(self, v):
        if id(v) in self.natives and self.natives[id(v)][0] is v:
            return self.natives[id(v)][1]
        return v

    def e_Await(self, e, env, glob):
        return self.eval(e.value, env, glob)

    def e_NamedExpr(self, e, env, glob):
        v = self.eval(e.value, env, glob)
        self.bind(e.target.id, v, env)
        return v

    def e_Tuple(self, e, env, glob):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred tuple")
        return tuple(self.eval(x, env, glob) for x in e.elts)

    def e_List(self, e, env, glob):
        out = SList((), len(self.loops))
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.extend(out, self.eval(x.value, env, glob))
            else:
                out.segs.append(self.eval(x, env, glob))
        return out

    def e_Dict(self, e, env, glob):
        out = SDict((), len(self.loops))
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict display")
            self.setitem(out, self.eval(k, env, glob), self.eval(v, env, glob))
        return out

    def e_ListComp(self, e, env, glob):
        out = SList((), len(self.loops))
        self.comp(e, env, glob, lambda en: self.append(out, self.eval(e.elt, en, glob)))
        return out

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env, glob):
        out = SDict((), len(self.loops))
        self.comp(e, env, glob, lambda en: self.setitem(out, self.eval(e.key, en, glob), self.eval(e.value, en, glob)))
        return out

    def comp(self, e, env, glob, leaf):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        en = Env(env)

        def body(v):
            self.assign(g.target, v, en, glob)
            for c in g.ifs:
                if not self.truth(self.eval(c, en, glob)):
                    return
            leaf(en)

        self.loop(self.eval(g.iter, env, glob), body, en)

    def e_JoinedStr(self, e, env, glob):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, env, glob)
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    parts.append(T("format", v))
                else:
                    parts.append(self.text(v))
        return cat(parts)

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, (int, float, type(None))) and not isinstance(v, z3.ExprRef):
            return str(v)
        if isinstance(v, T) and v.head in TEXTS:
            return v
        if isinstance(v, Exc) and isinstance(v.origin, str) and v.origin == "raise" and len(v.args) == 1 and issubclass(v.cls, Exception) and v.cls.__str__ in (BaseException.__str__, ValueError.__str__):
            return self.text(v.args[0])
        return T("str", v)

    def e_IfExp(self, e, env, glob):
        return self.eval(e.body if self.truth(self.eval(e.test, env, glob)) else e.orelse, env, glob)

    def e_BoolOp(self, e, env, glob):
        for x in e.values[:-1]:
            v = self.eval(x, env, glob)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return self.eval(e.values[-1], env, glob)

    def e_UnaryOp(self, e, env, glob):
        v = self.eval(e.operand, env, glob)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and isinstance(v, (int, float, z3.ArithRef)):
            return -v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env, glob):
        return self.binop(e.op, self.eval(e.left, env, glob), self.eval(e.right, env, glob))

    def binop(self, op, a, b):
        num = (int, float, z3.ArithRef)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult) and not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)):
                return a * b
            if isinstance(op, ast.Div) and isinstance(b, (int, float)) and b:
                return a / b
        if isinstance(op, ast.Add) and isinstance(a, (str, T)) and isinstance(b, (str, T)) and all(isinstance(x, str) or x.head in TEXTS for x in (a, b)):
            return cat([a, b])
        if isinstance(op, ast.Add) and isinstance(a, SList) and isinstance(b, (SList,)):
            self.readable(a), self.readable(b)
            return SList([*a.segs, *b.segs], len(self.loops))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return T("format", a, b)
        raise Unsupported("operator")

    def truth(self, v):
        if isinstance(v, Poison):
            raise Unsupported("value assigned in a loop")
        if isinstance(v, z3.BoolRef):
            return self.decide(v)
        if isinstance(v, T):
            return self.ask(T("true", v))
        if isinstance(v, (SList, SDict)):
            self.readable(v)
            if not v.segs:
                return False
            if any(not isinstance(x, Each) for x in v.segs):
                return True
            return self.ask(T("nonempty", *[x.src for x in v.segs]))
        if isinstance(v, (Obj, Ext, Closure, Method, PyFn, Exc)):
            return True
        if isinstance(v, z3.ArithRef):
            return self.decide(v != 0)
        return bool(v)

    def e_Compare(self, e, env, glob):
        left = self.eval(e.left, env, glob)
        out = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env, glob)
            r = self.compare(op, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return out

    def compare(self, op, a, b):
        num = (int, float, z3.ArithRef)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or isinstance(b, bool):
                if isinstance(a, T):
                    r = self.ask(T("is", a, b))
                else:
                    r = a is b
                return r == isinstance(op, ast.Is)
            raise Unsupported("identity")
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, SDict):
                r = self.member(b, a)
            elif isinstance(b, (tuple, list, str)) and not isinstance(a, (T, z3.ExprRef)):
                r = a in b
            else:
                raise Unsupported("membership")
            return r == isinstance(op, ast.In)
        if isinstance(a, num) and isinstance(b, num):
            k = type(op)
            if not any(isinstance(x, z3.ExprRef) for x in (a, b)):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[k]
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[k]()
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(a, (T, SList, SDict)) or isinstance(b, (T, SList, SDict)):
                r = True if same(a, b) else self.ask(T("equal", a, b))
            else:
                r = a == b
            return r == isinstance(op, ast.Eq)
        raise Unsupported("comparison")

    def member(self, d, k):
        self_known = any(not isinstance(s, Each) and same(s[0], k) for s in d.segs)
        if self_known:
            return True
        return self.ask(T("in", k, id(d), len(d.segs)))

    def e_Subscript(self, e, env, glob):
        v = self.eval(e.value, env, glob)
        if isinstance(e.slice, ast.Slice):
            raise Unsupported("slice")
        k = self.eval(e.slice, env, glob)
        return self.getitem(v, k)

    def getitem(self, v, k):
        if isinstance(v, T):
            if v.head == "parts" and isinstance(k, int):
                if -len(v.args) <= k < len(v.args):
                    return v.args[k]
                raise Unsupported("part")
            return self.callee(f"item {k}", T("item", v, k), [KeyError, TypeError, IndexError])
        if isinstance(v, SDict):
            self.readable(v)
            for s in v.segs:
                if not isinstance(s, Each) and same(s[0], k):
                    return s[1]
            if isinstance(k, T) and any(isinstance(s, Each) for s in v.segs):
                if self.member(v, k):
                    return v.lookup(k) if hasattr(v, "lookup") else T("lookup", k)
                raise Raised(Exc(KeyError, (k,), "lookup"))
            raise Unsupported("lookup")
        if isinstance(v, (tuple, list, dict, str)) and not isinstance(k, (T, z3.ExprRef)):
            try:
                return v[k]
            except Exception as x:
                raise Raised(Exc(type(x), x.args, "lookup"))
        if isinstance(v, SList) and not any(isinstance(s, Each) for s in v.segs) and isinstance(k, int):
            return v.segs[k]
        raise Unsupported("subscript")

    def e_Attribute(self, e, env, glob):
        return self.getattr(self.eval(e.value, env, glob), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Ext):
            return o.attr(self, name)
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported("attribute assigned in a loop")
                return v
            for c in o.cls.__mro__:
                if name in vars(c):
                    v = vars(c)[name]
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, classmethod):
                        return Method(v.__func__, o.cls)
                    if isinstance(v, property):
                        return self.call(Method(v.fget, o), [], {})
                    return Method(v, o) if isinstance(v, types.FunctionType) else self.native_value(v)
            raise Raised(Exc(AttributeError, (name,), "attribute"))
        if isinstance(o, (T, Exc, SList, SDict, str)) or isinstance(o, z3.ExprRef):
            return Method(name, o)
        if isinstance(o, (types.ModuleType, type)):
            if (id(o), name) in self.nattrs:
                return self.nattrs[id(o), name]
            if not hasattr(o, name):
                raise Raised(Exc(AttributeError, (name,), "attribute"))
            v = getattr(o, name)
            return self.native_value(v)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def e_Lambda(self, e, env, glob):
        return Closure(e, env, glob, "<lambda>")

    def e_Call(self, e, env, glob):
        f = self.eval(e.func, env, glob)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env, glob)
                if not isinstance(v, (tuple, list)):
                    raise Unsupported("starred argument")
                args += list(v)
            else:
                args.append(self.eval(a, env, glob))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("double starred argument")
            kw[k.arg] = self.eval(k.value, env, glob)
        return self.call(f, args, kw)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, PyFn):
            return f.f(self, args, kw)
        if isinstance(f, Closure):
            return self.body(f.node, f.env, f.glob, args, kw, f.name)
        if isinstance(f, Method):
            if isinstance(f.fn, types.FunctionType):
                return self.call(f.fn, [f.obj, *args], kw)
            return self.method(f.obj, f.fn, args, kw)
        if isinstance(f, Ext):
            if not hasattr(f, "invoke"):
                raise Unsupported(f"call of {f}")
            return f.invoke(self, args, kw)
        if id(f) in self.natives and self.natives[id(f)][0] is f:
            return self.call(self.natives[id(f)][1], args, kw)
        mod = getattr(f, "__module__", None)
        if mod in ("logging", "traceback", "warnings"):
            return T("text", f.__name__)
        if isinstance(f, types.BuiltinFunctionType) or f in (str, list, dict, tuple, len, sorted, isinstance, print, map, type, getattr, int, bool, repr):
            return self.builtin(f, args, kw)
        if isinstance(f, types.FunctionType):
            if not inspect.getsourcefile(f).startswith(REPO):
                raise Unsupported(f"call of {mod}.{f.__qualname__}")
            if hasattr(f, "__wrapped__"):
                raise Unsupported(f"decorated function {f.__qualname__}")
            node = func_ast(f)
            env = None
            if f.__closure__:
                env = Env()
                for n, c in zip(f.__code__.co_freevars, f.__closure__):
                    env.vars[n] = c.cell_contents
            d = f.__defaults__ or ()
            return self.body(node, env, f.__globals__, args, kw, f.__qualname__, d, f.__kwdefaults__ or {})
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return Exc(f, tuple(args), "raise")
            src = None
            try:
                src = inspect.getsourcefile(f)
            except (TypeError, OSError):
                pass
            if src and src.startswith(REPO):
                o = Obj(f, len(self.loops))
                self.call(Method(f.__init__, o), args, kw) if isinstance(f.__init__, types.FunctionType) else None
                return o
        raise Unsupported(f"call of {f!r}")

    def body(self, node, parent, glob, args, kw, name, defaults=(), kwdefaults=None):
        self.inline += 1
        if self.inline > 25:
            raise Unsupported("recursion")
        a = node.args
        if a.vararg or a.kwarg:
            raise Unsupported("variadic function")
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            raise Raised(Exc(TypeError, (name,), "call"))
        env = Env(parent)
        for n, v in zip(names, args):
            env.vars[n] = v
        for k, v in kw.items():
            if k in env.vars or k not in names + [x.arg for x in a.kwonlyargs]:
                raise Raised(Exc(TypeError, (name,), "call"))
            env.vars[k] = v
        if a.defaults and not defaults:
            defaults = [self.eval(x, parent or Env(), glob) for x in a.defaults]
        for n, v in zip(names[len(names) - len(defaults):], defaults):
            env.vars.setdefault(n, v)
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env.vars and dv is not None:
                env.vars[x.arg] = self.eval(dv, parent or Env(), glob)
        if any(n not in env.vars for n in names):
            raise Raised(Exc(TypeError, (name,), "call"))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env, glob)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                raise Unsupported("generator")
            self.block(node.body, env, glob)
        except Return as r:
            return r.value
        finally:
            self.inline -= 1
        return None

    def builtin(self, f, args, kw):
        if f is str and len(args) == 1 and not kw:
            return self.text(args[0])
        if f is print:
            return None
        if f is list and len(args) <= 1:
            out = SList((), len(self.loops))
            if args:
                self.extend(out, self.listed(args[0]))
            return out
        if f is dict and len(args) <= 1:
            out = SDict((), len(self.loops))
            if args:
                if not isinstance(args[0], SDict):
                    raise Unsupported("dict")
                self.readable(args[0])
                out.segs = list(args[0].segs)
            for k, v in kw.items():
                self.setitem(out, k, v)
            return out
        if f is sorted and len(args) == 1 and not kw:
            v = self.listed(args[0])
            if isinstance(v, SList) and len(v.segs) == 1 and isinstance(v.segs[0], Each):
                return SList([Each(T("sorted", v.segs[0].src, *v.segs[0].vals), v.segs[0].vals)], len(self.loops))
            raise Unsupported("sorted")
        if f is map and len(args) == 2:
            out = SList((), len(self.loops))
            self.loop(self.listed(args[1]), lambda x: self.append(out, self.call(args[0], [x], {})), Env())
            return out
        if f is isinstance and isinstance(args[0], Exc):
            return issubclass(args[0].cls, args[1])
        if f is len:
            if isinstance(args[0], (str, tuple, list)):
                return len(args[0])
            if isinstance(args[0], SList) and not any(isinstance(s, Each) for s in args[0].segs):
                return len(args[0].segs)
            return T("len", args[0])
        if f is repr:
            return T("str", args[0])
        if f is type and len(args) == 1 and isinstance(args[0], Exc):
            return args[0].cls
        if f is getattr and len(args) == 2 and isinstance(args[1], str):
            return self.getattr(args[0], args[1])
        raise Unsupported(f"call of {f!r}")

    def listed(self, v):
        if isinstance(v, SDict):
            return SList(self.iterate(v), len(self.loops))
        return v

    def method(self, o, name, args, kw):
        h = self.attrs.get(name)
        if h is not None:
            r = h(self, o, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(o, SList):
            if name == "append" and len(args) == 1:
                return self.append(o, args[0])
            if name == "extend" and len(args) == 1:
                return self.extend(o, args[0])
            if name == "sort" and not args and not kw:
                if self.loops and o.depth < len(self.loops):
                    raise Unsupported("sort in a loop")
                o.segs = self.builtin(sorted, [o], {}).segs
                return None
            if name == "copy" and not args:
                return SList(self.iterate(o), len(self.loops))
        if isinstance(o, SDict):
            self.readable(o)
            if name == "items" and not args:
                return SList([Each(s.src, s.vals) if isinstance(s, Each) else tuple(s) for s in o.segs], len(self.loops))
            if name == "get" and 1 <= len(args) <= 2 and not kw:
                if self.truth(self.member(o, args[0])):
                    return self.getitem(o, args[0])
                return args[1] if len(args) == 2 else None
            if name == "keys" and not args:
                return SList(self.iterate(o), len(self.loops))
            if name == "values" and not args:
                return SList([Each(s.src, [v for _, v in s.vals]) if isinstance(s, Each) else s[1] for s in o.segs], len(self.loops))
        if isinstance(o, str) and not any(isinstance(a, (T, Exc)) for a in args):
            try:
                return getattr(o, name)(*args, **kw)
            except Exception as x:
                raise Raised(Exc(type(x), x.args, "call"))
        if isinstance(o, T) and o.head in TEXTS:
            return text_method(self, o, name, args, kw)
        raise Unsupported(f"method {name} of {o}")


TEXTS = {"cat", "str", "text", "format", "dir", "filename", "encoded", "message", "strmethod", "program", "atoms"}


def cat(parts):
    out = []
    for p in parts:
        for x in p.args if isinstance(p, T) and p.head == "cat" else [p]:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "" or isinstance(x, T):
                out.append(x)
    if not out:
        return ""
    return out[0] if len(out) == 1 else T("cat", *out)


def text_method(run, o, name, args, kw):
    """Methods of opaque texts; a file name holds no dot and is not empty, nothing else is known of it."""
    if name in ("capitalize", "title", "format") and not kw:
        return T("strmethod", name, o, *args)
    parts = list(o.args) if o.head == "cat" else [o]
    dotfree = lambda x: "." not in x if isinstance(x, str) else x.head == "filename"
    if name in ("rsplit", "rpartition", "split") and args and args[0] == ".":
        if name == "split" and len(args) > 1 or name == "rsplit" and (len(args) > 1 and args[1] != 1 or kw):
            raise Unsupported("split")
        tail = []
        for i in range(len(parts) - 1, -1, -1):
            p = parts[i]
            if isinstance(p, str) and "." in p:
                a, b = p.rsplit(".", 1)
                last = cat([b, *tail])
                head = cat([*parts[:i], a])
                if name == "rpartition":
                    return (head, ".", last)
                if name == "rsplit":
                    return T("parts", head, last)
                return Split(head, last)
            if not dotfree(p):
                raise Unsupported("split of an unknown text")
            tail.insert(0, p)
        raise Unsupported("split without separator")
    if name == "removeprefix" and len(args) == 1:
        pre = args[0]
        pp = list(pre.args) if isinstance(pre, T) and pre.head == "cat" else [pre]
        for i, x in enumerate(pp):
            if i >= len(parts):
                raise Unsupported("removeprefix")
            if same(parts[i], x):
                continue
            if isinstance(x, str) and isinstance(parts[i], str) and i == len(pp) - 1 and parts[i].startswith(x):
                return cat([parts[i][len(x):], *parts[i + 1:]])
            raise Unsupported("removeprefix")
        return cat(parts[len(pp):])
    raise Unsupported(f"method {name} of a text")


class Split(Ext):
    """x.split(".") of which only the last part is known."""

    def __init__(self, head, last):
        self.head, self.last = head, last


_getitem = Run.getitem


def _gi(self, v, k):
    if isinstance(v, Split):
        if k == -1:
            return v.last
        raise Unsupported("part of a split")
    return _getitem(self, v, k)


Run.getitem = _gi


def explore(setup, go, excs, limit=20000):
    """All paths of go(run); raises Unsupported if the paths of a loop body differ in effect."""
    todo, paths, sums = [()], [], {}
    while todo:
        d = todo.pop()
        run = Run(setup, d, excs)
        try:
            p = Path("return", go(run), run)
        except Raised as r:
            p = Path("raise", r.exc, run)
        paths.append(p)
        if len(paths) > limit:
            raise Unsupported("too many paths")
        for i in range(len(d), len(run.made)):
            for k in range(1, run.made[i]):
                todo.append(tuple(run.decisions[:i]) + (k,))
        for src, prefix, eff in run.summaries:
            if sums.setdefault((src, prefix), eff) != eff:
                raise Unsupported(f"iterations over {src} differ in effect")
    return paths
