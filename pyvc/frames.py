"""Modifies clauses and initialisation before use, for everything that runs between a request and its program.

Contract of generate_program / prepare_puzzle / store_solution and everything they call:

  modifies   only objects created during the call (and, of the shared solver object, only attributes the call itself
             has assigned before it reads them);
  reads      of the shared solver object: only attributes assigned earlier in the same call (reset before use), or class
             attributes that nothing assigns.

From this it follows that no call can observe an earlier one: whatever outlives a call (module globals, class attributes,
default arguments, the registered solver objects, the puzzle handed in) is either not modified or not read before it is
set again.  The rules are applied to the AST of /repo's current source by an ownership analysis: every expression denotes
a set of origins (created here / immutable / global / argument / solver object / unknown); every store and every mutating
method call is one obligation.
"""
import ast
import builtins
import enum
import inspect
import types

from .interp import REPO, func_ast, module_ast
from .values import Unsupported

MUTATORS = {"append", "add", "update", "extend", "clear", "pop", "popitem", "remove", "discard", "setdefault", "insert", "sort", "reverse", "appendleft", "popleft", "extendleft",
            "rotate", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "subtract", "move_to_end"}
IMM, FRESH, UNK = "immutable", "fresh", "unknown"
ITER = {map, filter, zip, enumerate, reversed, iter, next, min, max}
NEW = {list, dict, set, tuple, frozenset, sorted}
OUTSIDE = {"time", "os", "datetime", "sys", "io", "pathlib", "tempfile", "shelve", "pickle", "socket", "subprocess", "threading", "contextvars", "gc", "weakref"}


def immutable(x, depth=3):
    if x is None or isinstance(x, (str, int, float, bool, bytes, enum.Enum, types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, range)):
        return True
    if isinstance(x, (tuple, frozenset)) and depth:
        return all(immutable(y, depth - 1) for y in x)
    return getattr(type(x), "__module__", "") in ("typing", "re")


class V:
    """Abstract value: origins [(origin, class or None)] and the callables it may be."""

    __slots__ = ("o", "fns")

    def __init__(self, o=(), fns=()):
        self.o, self.fns = frozenset(o), tuple(fns)

    def __or__(self, b):
        return V(self.o | b.o, self.fns + tuple(f for f in b.fns if f not in self.fns))

    @property
    def origins(self):
        return {x for x, _ in self.o}

    def __eq__(self, b):
        return self.o == b.o and self.fns == b.fns

    def __hash__(self):
        return hash((self.o, self.fns))


VI, VF, VU = V([(IMM, None)]), V([(FRESH, None)]), V([(UNK, None)])


class Closure:
    def __init__(self, node, env, glob, owner, qual):
        self.node, self.env, self.glob, self.owner, self.qual = node, env, glob, owner, qual

    def __eq__(self, o):
        return isinstance(o, Closure) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))


class Method:
    """A function found on a class, bound to a receiver."""

    def __init__(self, fn, recv, owner):
        self.fn, self.recv, self.owner = fn, recv, owner

    def __eq__(self, o):
        return isinstance(o, Method) and (o.fn, o.recv) == (self.fn, self.recv)

    def __hash__(self):
        return hash((self.fn, self.recv))


class BuiltinMethod:
    def __init__(self, base, name):
        self.base, self.name = base, name

    def __eq__(self, o):
        return isinstance(o, BuiltinMethod) and (o.base, o.name) == (self.base, self.name)

    def __hash__(self):
        return hash((self.base, self.name))


class Env:
    def __init__(self, parent=None):
        self.v, self.parent, self.nonlocal_, self.global_ = {}, parent, set(), set()


class Plain:
    """Marks a container whose contents are immutable (by the annotation of the attribute that holds it)."""


class Site:
    """An allocation site (a display, comprehension or constructor call); contents: what may be stored in its objects."""

    def __init__(self, key):
        self.key, self.contents = key, V()


PLAIN = {"str", "int", "bool", "float", "Point", "Color", "Direction", "None"}


def plain_attr(cls, name):
    """Is the attribute annotated as a container of immutable values?"""
    for k in cls.__mro__:
        f = vars(k).get("__init__")
        if not (isinstance(f, types.FunctionType) and is_repo(f)):
            continue
        for s in ast.walk(func_ast(f)):
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and s.target.attr == name:
                ns = {x.id for x in ast.walk(s.annotation) if isinstance(x, ast.Name)}
                if ns <= PLAIN | {"Union", "Optional", "Tuple"}:
                    return "value"
                return "container" if isinstance(s.annotation, ast.Subscript) and ns <= PLAIN | {"Union", "Optional", "Tuple", "Dict", "List", "Set"} else None
    return None


def is_repo(x):
    f = getattr(getattr(x, "__code__", None), "co_filename", "")
    return f.startswith(REPO + "/")


def repo_class(c):
    return isinstance(c, type) and getattr(inspect.getmodule(c), "__file__", "").startswith(REPO + "/")


def init_attrs(cls):
    """Attributes every instance gets from its constructors, unconditionally."""
    out = set()
    for k in cls.__mro__:
        f = vars(k).get("__init__")
        if isinstance(f, types.FunctionType) and is_repo(f):
            n = func_ast(f)
            self_ = n.args.args[0].arg
            for s in n.body:
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self_:
                        out.add(t.attr)
            if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__" for x in ast.walk(n)):
                break
    return out


class Analysis:
    def __init__(self, solver=None):
        self.solver = solver  # the class whose instance modules[...] stands for
        self.sites = {}  # (qual, line, what) -> verdict "ok" | "bad" | "maybe"
        self.why = {}
        self.memo = {}
        self.inner = set()  # origins stored in containers created during the call
        self.stack = []
        self.functions = set()
        self.self_attrs = set()
        self.fields = {}  # (class, attribute) -> what the code stores there, for objects created during the call
        self.inner_fns = V()
        self.alloc, self.changes = {}, 0
        self.yields = []

    # -- obligations
    def site(self, node, what, v, qual):
        k = (qual, getattr(node, "lineno", 0), what)
        bad = [o for o in v.origins if o.startswith("global ") or o.startswith("argument ")]
        maybe = [o for o in v.origins if o == UNK or o.startswith("perhaps ")]
        verdict = "bad" if bad and not maybe and not (v.origins - set(bad) - {IMM}) else "maybe" if bad or maybe else "ok"
        old = self.sites.get(k)
        rank = {"ok": 0, "maybe": 1, "bad": 2}
        if old is None or rank[verdict] > rank[old]:
            self.sites[k] = verdict
            self.why[k] = ", ".join(sorted(bad + maybe))

    def flag(self, node, what, qual, verdict="maybe"):
        k = (qual, getattr(node, "lineno", 0), what)
        self.sites[k] = verdict
        self.why[k] = what

    # -- functions
    def run(self, fn, args, kw=None, owner=None):
        """Analyse a function object or closure applied to abstract arguments; returns the abstract result."""
        if isinstance(fn, Closure):
            node, glob, parent, qual, owner = fn.node, fn.glob, fn.env, fn.qual, fn.owner
            defaults = None
        else:
            node, glob, parent = func_ast(fn), fn.__globals__, None
            qual = f"{fn.__module__}.{fn.__qualname__}"
            defaults = fn
        key = (id(node), tuple(args), tuple(sorted((kw or {}).items())))
        if key in self.memo:
            return self.memo[key]
        if key in self.stack or len(self.stack) > 40:
            return V()
        self.stack.append(key)
        self.yields.append(set())
        self.functions.add(qual)
        env = Env(parent)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, n in enumerate(names):
            env.v[n] = args[i] if i < len(args) else V()
        if a.vararg:
            env.v[a.vararg.arg] = self.join(args[len(names):]) | VF
        for k, v in (kw or {}).items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env.v[k] = env.v.get(k, V()) | v
            elif a.kwarg:
                env.v[a.kwarg.arg] = env.v.get(a.kwarg.arg, VF) | v
        if a.kwarg and a.kwarg.arg not in env.v:
            env.v[a.kwarg.arg] = VF
        # parameters that were not given: the default object, shared by all calls
        given = set(names[:len(args)]) | set(kw or {})
        dpairs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in dpairs:
            if n not in given:
                mutable = isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp))
                env.v[n] = V([(f"global default of {qual}({n})", None)]) if mutable else (self.ev(d, Env(parent), glob, qual, owner) if isinstance(d, (ast.Name, ast.Attribute, ast.Lambda)) else VI)
        ret = V()
        if isinstance(node, ast.Lambda):
            ret = self.ev(node.body, env, glob, qual, owner)
        else:
            for _ in range(6):
                before = dict(env.v), ret, set(self.inner), self.inner_fns, dict(self.fields), self.changes
                ret = ret | self.block(node.body, env, glob, qual, owner)
                if (env.v, ret, self.inner, self.inner_fns, self.fields, self.changes) == before:
                    break
        self.stack.pop()
        ys = self.yields.pop()
        if ys:
            ret = ret | V(ys)  # a generator stands for what it yields
        del defaults
        self.memo[key] = ret
        return ret

    def stable(self, f):
        """Repeat until what containers and fields may hold no longer grows."""
        for _ in range(8):
            before = self.changes, dict(self.fields), set(self.inner), self.inner_fns
            self.memo.clear()
            f()
            if before == (self.changes, self.fields, self.inner, self.inner_fns):
                return
        raise Unsupported("the analysis does not converge")

    def join(self, vs):
        out = V()
        for v in vs:
            out = out | v
        return out

    def elements(self, v):
        """What a container or iterator denoted by v may contain."""
        plain = V([x if x[1] is not Plain else (IMM, None) for x in v.o if not isinstance(x[1], Site)], v.fns)
        for _, c in v.o:
            if isinstance(c, Site):
                plain = plain | c.contents
        if (FRESH, None) in v.o:
            plain = plain | V((), self.inner_fns.fns)
            if self.inner:
                return plain | V([(f"perhaps {x}" if x.startswith(("global ", "argument ")) else x, None) for x in self.inner])
        return plain

    def new(self, node, v=V()):
        """An object allocated at this node, holding v."""
        s = self.alloc.setdefault(id(node), Site(id(node)))
        self.put(s, v)
        return V([(FRESH, s)])

    def put(self, site, v):
        n = site.contents | v
        if n != site.contents:
            site.contents = n
            self.changes += 1

    def keep(self, v, base=None):
        """v is stored inside an object created during the call."""
        if base is not None and base.o:
            for o, c in base.o:
                if isinstance(c, Site):
                    self.put(c, v)
            if all(isinstance(c, Site) or o in (IMM, "solver") or c is Plain for o, c in base.o):
                return
        self.inner |= {o for o in v.origins if o not in (IMM, FRESH)}
        fns = [f for f in v.fns if isinstance(f, (Closure, types.FunctionType, Method))]
        if fns:
            self.inner_fns = self.inner_fns | V((), fns)

    # -- statements; returns what may be returned
    def block(self, body, env, glob, qual, owner):
        ret = V()
        for s in body:
            ret = ret | self.stmt(s, env, glob, qual, owner)
        return ret

    def stmt(self, s, env, glob, qual, owner):
        ev = lambda e: self.ev(e, env, glob, qual, owner)
        t = type(s)
        if t is ast.Expr:
            ev(s.value)
        elif t is ast.Assign:
            v = ev(s.value)
            for x in s.targets:
                self.store(x, v, env, glob, qual, owner, s.value)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.store(s.target, ev(s.value), env, glob, qual, owner, s.value)
        elif t is ast.AugAssign:
            v = ev(s.value)
            if isinstance(s.target, ast.Name):
                old = ev(s.target)
                if isinstance(s.value, (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)) or isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
                    self.site(s, f"update of {s.target.id}", V([x for x in old.o if x[0] != IMM]) if old.origins - {IMM} else VI, qual)
                    self.keep(self.elements(v), old)
                self.store(s.target, v | old, env, glob, qual, owner, None)
            else:
                self.store(s.target, v, env, glob, qual, owner, None)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, (ast.Subscript, ast.Attribute)):
                    self.site(s, f"del {ast.unparse(x)}", ev(x.value), qual)
        elif t in (ast.For, ast.AsyncFor):
            self.store(s.target, self.elements(ev(s.iter)), env, glob, qual, owner, None)
            return self.block(s.body, env, glob, qual, owner) | self.block(s.orelse, env, glob, qual, owner)
        elif t is ast.While:
            ev(s.test)
            return self.block(s.body, env, glob, qual, owner) | self.block(s.orelse, env, glob, qual, owner)
        elif t is ast.If:
            ev(s.test)
            return self.block(s.body, env, glob, qual, owner) | self.block(s.orelse, env, glob, qual, owner)
        elif t is ast.Return:
            return ev(s.value) if s.value is not None else VI
        elif t is ast.FunctionDef:
            env.v[s.name] = V([(IMM, None)], [Closure(s, env, glob, owner, f"{qual}.{s.name}")])
            if s.decorator_list:
                self.flag(s, f"decorated function {s.name}", qual)
        elif t is ast.Global:
            env.global_ |= set(s.names)
        elif t is ast.Nonlocal:
            env.nonlocal_ |= set(s.names)
        elif t is ast.Try:
            r = self.block(s.body, env, glob, qual, owner)
            for h in s.handlers:
                if h.name:
                    env.v[h.name] = VF
                r = r | self.block(h.body, env, glob, qual, owner)
            return r | self.block(s.orelse, env, glob, qual, owner) | self.block(s.finalbody, env, glob, qual, owner)
        elif t is ast.With:
            for i in s.items:
                v = ev(i.context_expr)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, v, env, glob, qual, owner, None)
            return self.block(s.body, env, glob, qual, owner)
        elif t in (ast.Raise, ast.Assert):
            for x in ast.iter_child_nodes(s):
                ev(x)
        elif t in (ast.Import, ast.ImportFrom):
            for x in s.names:
                env.v[(x.asname or x.name).split(".")[0]] = VU
                self.flag(s, f"import inside {qual}", qual)
        elif t in (ast.Pass, ast.Break, ast.Continue):
            pass
        elif t is ast.Match:
            self.flag(s, "match statement", qual)
        else:
            self.flag(s, t.__name__, qual)
        return V()

    def store(self, x, v, env, glob, qual, owner, src):
        if isinstance(x, ast.Name):
            if x.id in env.global_:
                self.site(x, f"assignment to global {x.id}", V([(f"global {x.id}", None)]), qual)
                return
            e = env
            if x.id in env.nonlocal_:
                e = env.parent
                while e is not None and x.id not in e.v:
                    e = e.parent
                e = e or env
            e.v[x.id] = e.v.get(x.id, V()) | v
        elif isinstance(x, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(x.elts):
                for a, b in zip(x.elts, src.elts):
                    self.store(a, self.ev(b, env, glob, qual, owner), env, glob, qual, owner, b)
            else:
                for a in x.elts:
                    self.store(a, self.elements(v), env, glob, qual, owner, None)
        elif isinstance(x, ast.Starred):
            self.store(x.value, v | VF, env, glob, qual, owner, None)
        elif isinstance(x, ast.Subscript):
            b = self.ev(x.value, env, glob, qual, owner)
            self.ev(x.slice, env, glob, qual, owner)
            self.site(x, f"store to {ast.unparse(x.value)}[...]", b, qual)
            self.keep(v, b)
        elif isinstance(x, ast.Attribute):
            b = self.ev(x.value, env, glob, qual, owner)
            if "solver" in b.origins and b.origins <= {"solver", IMM}:
                self.self_attrs.add(x.attr)  # judged by initialisation before use
                self.site(x, f"store to {ast.unparse(x)}", VF, qual)
                self.keep_self = getattr(self, "keep_self", V()) | v
            else:
                self.site(x, f"store to {ast.unparse(x)}", b, qual)
                if b.o and all(o == FRESH and c is not None for o, c in b.o):
                    for _, c in b.o:
                        self.fields[c, x.attr] = self.fields.get((c, x.attr), V()) | v
                else:
                    self.keep(v)

    # -- expressions
    def ev(self, e, env, glob, qual, owner):
        ev = lambda x: self.ev(x, env, glob, qual, owner)
        t = type(e)
        if t is ast.Constant:
            return VI
        if t is ast.Name:
            return self.name(e.id, env, glob)
        if t in (ast.List, ast.Set, ast.Tuple):
            vs = [ev(x) for x in e.elts]
            if t is ast.Tuple:
                # a tuple of immutables is immutable; otherwise it is its parts
                return self.join(vs) if vs else VI
            return self.new(e, self.join(vs))
        if t is ast.Dict:
            return self.new(e, self.join([ev(x) for x in list(e.keys) + list(e.values) if x is not None]))
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            inner = Env(env)
            for g in e.generators:
                self.store(g.target, self.elements(self.ev(g.iter, inner, glob, qual, owner)), inner, glob, qual, owner, None)
                for c in g.ifs:
                    self.ev(c, inner, glob, qual, owner)
            return self.new(e, self.join([self.ev(x, inner, glob, qual, owner) for x in ([e.key, e.value] if t is ast.DictComp else [e.elt])]))
        if t is ast.Lambda:
            return V([(IMM, None)], [Closure(e, env, glob, owner, f"{qual}.<lambda>")])
        if t in (ast.BoolOp,):
            return self.join([ev(x) for x in e.values])
        if t is ast.IfExp:
            ev(e.test)
            return ev(e.body) | ev(e.orelse)
        if t in (ast.Compare, ast.JoinedStr, ast.FormattedValue, ast.UnaryOp, ast.Slice):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    ev(x)
            return VI
        if t is ast.BinOp:
            a, b = ev(e.left), ev(e.right)
            if a.origins | b.origins <= {IMM}:
                return VI
            return self.new(e, self.elements(a) | self.elements(b)) | VI
        if t is ast.Starred:
            return ev(e.value)
        if t is ast.Subscript:
            ev(e.slice)
            return self.item(ev(e.value))
        if t is ast.Attribute:
            return self.attr(ev(e.value), e.attr, owner)
        if t is ast.Call:
            return self.call(e, env, glob, qual, owner)
        if t is ast.NamedExpr:
            v = ev(e.value)
            self.store(e.target, v, env, glob, qual, owner, e.value)
            return v
        if t in (ast.Yield, ast.YieldFrom):
            v = ev(e.value) if e.value is not None else VI
            if self.yields:
                self.yields[-1] |= (v if t is ast.Yield else self.elements(v)).o
            return VI
        if t is ast.Await:
            return ev(e.value)
        return VU

    def item(self, v):
        out = self.elements(v)
        if any(o == "global modules" for o in v.origins) and self.solver is not None:
            return V([("solver", self.solver)])
        return out

    def name(self, n, env, glob):
        e = env
        while e is not None:
            if n in e.v and n not in e.global_:
                return e.v[n]
            e = e.parent
        if n in glob:
            return self.native(glob[n], n)
        b = getattr(builtins, n, None)
        if b is not None:
            return V([(IMM, None)], [b])
        return V()

    def native(self, x, n):
        if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, type)):
            return V([(IMM, None)], [x])
        if isinstance(x, types.ModuleType):
            return V([(IMM, None)], [x])
        if callable(x) and hasattr(x, "__wrapped__"):
            return V([(IMM, None)], [x])
        if immutable(x):
            return VI
        c = type(x) if repo_class(type(x)) else None
        if isinstance(x, (dict, list, set)) and all(immutable(y) for y in x) and (not isinstance(x, dict) or all(immutable(y) for y in x.values())):
            c = Plain
        return V([(f"global {n}", c)])

    def attr(self, v, name, owner):
        out = V()
        for f in v.fns:
            if isinstance(f, types.ModuleType):
                if f.__name__.split(".")[0] in OUTSIDE:
                    out = out | V([(IMM, None)], [("outside", f"{f.__name__}.{name}")])
                elif hasattr(f, name):
                    out = out | self.native(getattr(f, name), f"{f.__name__}.{name}")
            elif isinstance(f, type):
                x = inspect.getattr_static(f, name, None)
                if isinstance(x, (staticmethod, classmethod)):
                    x = x.__func__
                if isinstance(x, types.FunctionType):
                    out = out | V([(IMM, None)], [x])
                elif x is not None:
                    out = out | self.native(x, f"{f.__name__}.{name}")
            elif isinstance(f, tuple) and f[0] == "super":
                for k in f[1].__mro__[f[1].__mro__.index(f[2]) + 1:]:
                    if name in vars(k):
                        if isinstance(vars(k)[name], types.FunctionType):
                            out = out | V([(IMM, None)], [Method(vars(k)[name], f[3], k)])
                        break
        for o, c in v.o:
            if isinstance(c, Site):
                out = out | V([(o, c)], [BuiltinMethod(V([(o, c)]), name)])
            elif c is not None:
                for k in c.__mro__:
                    if name in vars(k):
                        x = vars(k)[name]
                        if isinstance(x, types.FunctionType):
                            out = out | V([(IMM, None)], [Method(x, V([(o, c)]), k)])
                        elif isinstance(x, (staticmethod, classmethod)):
                            out = out | V([(IMM, None)], [x.__func__ if isinstance(x, staticmethod) else Method(x.__func__, V([(IMM, None)], [c]), k)])
                        elif isinstance(x, property):
                            out = out | self.run(x.fget, [V([(o, c)])], owner=k)
                        elif name in init_attrs(c):
                            out = out | self.field(o, c, name)
                        elif immutable(x):
                            out = out | VI
                        else:
                            out = out | V([(f"global {k.__name__}.{name}", None)])
                        break
                else:
                    if o == "solver":
                        out = out | (getattr(self, "keep_self", V()) if name in self.self_attrs or name not in init_attrs(c) else V()) | VF
                    elif c is Plain:
                        out = out | V([(o, c)], [BuiltinMethod(V([(o, c)]), name)])
                    else:
                        out = out | self.field(o, c, name)
            elif o == IMM and v.fns:
                continue
            else:
                out = out | V([(o, None)], [BuiltinMethod(V([(o, None)]), name)])
        return out

    def field(self, o, c, name):
        p = plain_attr(c, name)
        if p:
            return VI if p == "value" else V([(o, Plain)])
        if o == FRESH:
            return self.fields.get((c, name), V()) | (V() if (c, name) in self.fields else VF)
        return V([(o, None)])

    def call(self, e, env, glob, qual, owner):
        ev = lambda x: self.ev(x, env, glob, qual, owner)
        args = []
        spread = False
        for a in e.args:
            args.append(ev(a))
            spread |= isinstance(a, ast.Starred)
        kw = {}
        for k in e.keywords:
            v = ev(k.value)
            if k.arg is None:
                spread = True
                args.append(v)
            else:
                kw[k.arg] = v
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and owner is not None:
            slf = next((x for x in self.chain(env) if "self" in x.v), None)
            sv = slf.v["self"] if slf else VU
            cls = next((c for _, c in sv.o if c), owner)
            return V([(IMM, None)], [("super", cls, owner, sv)])
        f = ev(e.func)
        out = V()
        if not f.fns:
            if f.origins & {UNK} or any(o.startswith(("perhaps", "argument")) for o in f.origins):
                self.flag(e, f"call of an unknown function {ast.unparse(e.func)}", qual)
                return VU
            return VF
        for fn in f.fns:
            out = out | self.apply(fn, args, kw, e, qual, owner, spread)
        return out

    def chain(self, env):
        while env is not None:
            yield env
            env = env.parent

    def apply(self, fn, args, kw, e, qual, owner, spread):
        every = self.join(args + list(kw.values()))
        if isinstance(fn, Closure):
            if spread:
                n = len(fn.node.args.args)
                args = [every] * n
            return self.run(fn, args, kw)
        if isinstance(fn, Method):
            if not is_repo(fn.fn):
                return VF
            a = [fn.recv] + args
            if spread:
                a = [fn.recv] + [every] * (len(fn.fn.__code__.co_varnames[:fn.fn.__code__.co_argcount]) - 1)
            return self.run(fn.fn, a, kw, owner=fn.owner)
        if isinstance(fn, BuiltinMethod):
            b, name = fn.base, fn.name
            for f in every.fns:
                if isinstance(f, (Closure, types.FunctionType)):
                    self.apply(f, [self.elements(b)], {}, e, qual, owner, False)
            if name in MUTATORS:
                if b.origins - {IMM}:
                    self.site(e, f"{ast.unparse(e.func)}(...)", V([x for x in b.o if x[0] != IMM]), qual)
                if name in ("update", "extend", "extendleft"):
                    every = self.elements(every)
                self.keep(every, b)
                return self.elements(b) | every
            if name in ("get", "items", "values", "keys", "__getitem__", "most_common", "elements"):
                return self.item(b) | every
            if name == "copy":
                return self.new(e, self.elements(b))
            if UNK in b.origins and name not in STR_METHODS:
                return VU
            return VF | VI
        if isinstance(fn, tuple):
            if fn[0] == "outside":
                self.flag(e, f"{fn[1]} looks outside the process's arguments", qual)
            return VU
        if isinstance(fn, types.ModuleType):
            return VU
        if callable(fn) and hasattr(fn, "__wrapped__") and not isinstance(fn, (types.FunctionType, type)):
            self.flag(e, f"memoised function {getattr(fn, '__name__', fn)}", qual)
            return V([(f"global memo of {getattr(fn, '__name__', fn)}", None)]) | VU
        if isinstance(fn, type):
            if repo_class(fn):
                if issubclass(fn, tuple) or issubclass(fn, enum.Enum):
                    return self.join(args + list(kw.values())) | VI
                me = V([(FRESH, fn)])
                for k in fn.__mro__:
                    if "__init__" in vars(k):
                        if isinstance(vars(k)["__init__"], types.FunctionType) and is_repo(vars(k)["__init__"]):
                            self.run(vars(k)["__init__"], [me] + args, kw, owner=k)
                        break
                return me
            for f in every.fns:
                if isinstance(f, (Closure, types.FunctionType)):
                    self.apply(f, [self.elements(every)] * 2, {}, e, qual, owner, True)
            if fn in ITER:
                return every
            if fn in (str, int, bool, float, bytes, range, type, slice):
                return VI
            if fn in NEW or fn.__module__ == "collections":
                out = self.new(e, self.elements(every))
                for f in every.fns:  # defaultdict(list): new objects on demand
                    out = out | V((), ())
                    if isinstance(f, type):
                        self.keep(VF if f not in (int, str, bool, float) else VI, out)
                return out
            self.keep(V([x for x in every.o]))
            return VF
        if isinstance(fn, types.FunctionType):
            if is_repo(fn):
                if fn.__closure__ or hasattr(fn, "__wrapped__"):
                    self.flag(e, f"decorated function {fn.__name__}", qual)
                if spread:
                    args = [every] * fn.__code__.co_argcount
                return self.run(fn, args, kw)
            return self.library(fn, args, every, e, qual, owner)
        return self.library(fn, args, every, e, qual, owner)

    def library(self, fn, args, every, e, qual, owner):
        """Functions outside the repository: assumed not to keep or change their arguments."""
        for f in every.fns:
            if isinstance(f, (Closure, types.FunctionType)):
                self.apply(f, [self.elements(every)] * 2, {}, e, qual, owner, True)
        if fn in (setattr, delattr) or fn is object.__setattr__:
            self.site(e, f"{ast.unparse(e)}", args[0] if args else VU, qual)
            return VI
        if fn in (globals, vars, locals, exec, eval, open, __import__, input):
            self.flag(e, f"call of {fn.__name__}", qual)
            return VU
        if fn is getattr and args:
            return args[0] | every
        if fn in ITER or getattr(fn, "__module__", "") == "itertools":
            return every
        if fn in NEW:
            return self.new(e, self.elements(every))
        if getattr(fn, "__module__", "") == "random" and getattr(fn, "__name__", "") in ("choice",):
            return self.elements(every)
        if getattr(fn, "__name__", "") in ("shuffle",) and args:
            self.site(e, f"{ast.unparse(e)}", args[0], qual)
        return VF | VI


STR_METHODS = {m for m in dir(str)}


# ------------------------------------------------------------------------------------------- initialisation before use

class Init:
    """Every read of an attribute of the shared solver object follows an assignment in the same call."""

    def __init__(self, cls, written):
        self.cls, self.written = cls, written
        self.bad, self.maybe, self.reads = [], [], 0
        self.depth = 0

    def check(self, fn, defined, owner=None):
        node = func_ast(fn)
        self_ = node.args.args[0].arg if node.args.args else None
        self.qual = f"{fn.__module__}.{fn.__qualname__}"
        d, _ = self.block(node.body, set(defined), self_)
        return d

    def block(self, body, d, s):
        """Returns (attributes assigned after the block, whether its end is reachable)."""
        for x in body:
            d, live = self.stmt(x, d, s)
            if not live:
                return d, False
        return d, True

    def stmt(self, x, d, s):
        t = type(x)
        if t is ast.If:
            d = self.expr(x.test, d, s)
            a, la = self.block(x.body, set(d), s)
            b, lb = self.block(x.orelse, set(d), s)
            if la and lb:
                return a & b, True
            return (a if la else b), la or lb
        if t in (ast.For, ast.While):
            d = self.expr(x.iter if t is ast.For else x.test, d, s)
            self.block(x.body, set(d), s)
            self.block(x.orelse, set(d), s)
            return d, True
        if t in (ast.Return, ast.Raise):
            for y in ast.iter_child_nodes(x):
                d = self.expr(y, d, s)
            return d, False
        if t is ast.Try:
            a, la = self.block(x.body, set(d), s)
            outs = [a] if la else []
            for h in x.handlers:
                b, lb = self.block(h.body, set(d), s)
                if lb:
                    outs.append(b)
            r = set.intersection(*outs) if outs else set(d)
            f, lf = self.block(x.finalbody, r, s)
            return f, bool(outs) and lf
        if t is ast.With:
            for i in x.items:
                d = self.expr(i.context_expr, d, s)
            return self.block(x.body, d, s)
        if t in (ast.FunctionDef, ast.ClassDef):
            self.block(x.body, set(d), s)
            return d, True
        if t is ast.Assign:
            d = self.expr(x.value, d, s)
            for y in x.targets:
                d = self.target(y, d, s)
            return d, True
        if t is ast.AnnAssign:
            if x.value is not None:
                d = self.expr(x.value, d, s)
                d = self.target(x.target, d, s)
            return d, True
        if t is ast.AugAssign:
            d = self.expr(x.value, d, s)
            if isinstance(x.target, ast.Attribute) and isinstance(x.target.value, ast.Name) and x.target.value.id == s:
                self.read(x.target, d)
                return d, True
            return self.target(x.target, d, s), True
        for y in ast.iter_child_nodes(x):
            if isinstance(y, ast.expr):
                d = self.expr(y, d, s)
        return d, t not in (ast.Break, ast.Continue)

    def target(self, y, d, s):
        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == s:
            return d | {y.attr}
        if isinstance(y, (ast.Tuple, ast.List)):
            for z in y.elts:
                d = self.target(z, d, s)
            return d
        if isinstance(y, (ast.Subscript, ast.Attribute)):
            return self.expr(y.value, d, s)
        return d

    def read(self, node, d):
        if node.attr in self.written:
            self.reads += 1
            if node.attr not in d:
                self.bad.append((self.qual, node.lineno, node.attr))

    def expr(self, e, d, s):
        if e is None:
            return d
        if isinstance(e, ast.Call):
            for a in list(e.args) + [k.value for k in e.keywords]:
                d = self.expr(a, d, s)
            f = e.func
            if isinstance(f, ast.Attribute):
                owner = None
                if isinstance(f.value, ast.Name) and f.value.id == s:
                    owner = next((k for k in self.cls.__mro__ if f.attr in vars(k)), None)
                elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                    owner = next((k for k in self.cls.__mro__[1:] if f.attr in vars(k)), None)
                if owner is not None and isinstance(vars(owner)[f.attr], types.FunctionType) and is_repo(vars(owner)[f.attr]):
                    if self.depth > 8:
                        self.maybe.append((self.qual, e.lineno, "deep recursion"))
                        return d
                    self.depth += 1
                    q = self.qual
                    d = self.check(vars(owner)[f.attr], d)
                    self.qual = q
                    self.depth -= 1
                    return d
            return self.expr(f, d, s)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == s:
                if isinstance(e.ctx, ast.Load):
                    self.read(e, d)
                return d
            return self.expr(e.value, d, s)
        if isinstance(e, ast.Name) and e.id == s and isinstance(e.ctx, ast.Load):
            self.maybe.append((self.qual, e.lineno, "the solver object is handed on"))
            return d
        if isinstance(e, (ast.Lambda,)):
            self.expr(e.body, set(d), s)
            return d
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            parts = e.values if isinstance(e, ast.BoolOp) else [e.test, e.body, e.orelse]
            d = self.expr(parts[0], d, s)
            for y in parts[1:]:
                self.expr(y, set(d), s)
            return d
        for y in ast.iter_child_nodes(e):
            if isinstance(y, (ast.expr, ast.comprehension)):
                if isinstance(y, ast.comprehension):
                    d = self.expr(y.iter, d, s)
                    for c in y.ifs:
                        self.expr(c, set(d), s)
                else:
                    d = self.expr(y, d, s)
        return d


def arguments(fn):
    """Abstract arguments of an entry point: objects of the caller."""
    from noqx.puzzle import Puzzle

    out = []
    for a in func_ast(fn).args.args:
        an = ast.unparse(a.annotation) if a.annotation else ""
        out.append(VI if an == "str" else V([(f"argument {a.arg}", Puzzle if an == "Puzzle" else None)]))
    return out


def resets_first(fn, cls):
    """Attributes of the solver that the manager itself assigns (module.reset()) before it calls solve."""
    node = func_ast(fn)
    out, seen = set(), False
    for s in node.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "reset" and isinstance(s, ast.Expr) and not seen:
                i = Init(cls, set())
                out |= i.check(cls.reset, set())
            if isinstance(x, ast.Attribute) and x.attr == "solve":
                seen = True
    return out


def verify(name):
    """Frame obligations of one puzzle type.  {"sites": {...}, "bad": [...], "maybe": [...]} (picklable)."""
    import importlib

    from noqx import manager

    from .run import solver_class

    cls = solver_class(name)
    a = Analysis(cls)
    a.stable(lambda: [a.run(f, arguments(f)) for f in (manager.generate_program, manager.store_solution)])
    owned = [(q, ln, what, a.why[(q, ln, what)]) for (q, ln, what), v in a.sites.items() if v == "bad" and a.why[(q, ln, what)] in ("argument puzzle", "argument param")]
    bad = [x for x in ((q, ln, what, a.why[(q, ln, what)]) for (q, ln, what), v in a.sites.items() if v == "bad") if x not in owned]
    maybe = [(q, ln, what, a.why[(q, ln, what)]) for (q, ln, what), v in a.sites.items() if v == "maybe"]
    attrs = set(a.self_attrs)
    i = Init(cls, attrs | {"program"})
    i.check(cls.solve, resets_first(manager.generate_program, cls))
    init = (i.bad, i.maybe, i.reads)
    if cls.refine is not manager.Solver.refine:
        j = Init(cls, attrs | {"program"})
        j.check(cls.refine, set())
        init = (i.bad + j.bad, i.maybe + j.maybe, i.reads + j.reads)
    del importlib
    return {"name": name, "sites": len(a.sites), "ok": sum(v == "ok" for v in a.sites.values()), "owned": owned, "bad": bad, "maybe": maybe,
            "init_bad": init[0], "init_maybe": init[1], "reads": init[2], "functions": sorted(a.functions)}


def verify_decoder():
    from noqx import manager

    a = Analysis()
    from noqx.puzzle.penpa import PenpaPuzzle

    a.stable(lambda: [a.run(manager.prepare_puzzle, arguments(manager.prepare_puzzle)), a.run(PenpaPuzzle.encode, [V([(FRESH, PenpaPuzzle)])], owner=PenpaPuzzle)])
    owned = [(q, ln, what, a.why[(q, ln, what)]) for (q, ln, what), v in a.sites.items() if v == "bad" and a.why[(q, ln, what)] in ("argument puzzle", "argument param")]
    bad = [x for x in ((q, ln, what, a.why[(q, ln, what)]) for (q, ln, what), v in a.sites.items() if v == "bad") if x not in owned]
    maybe = [(q, ln, what, a.why[(q, ln, what)]) for (q, ln, what), v in a.sites.items() if v == "maybe"]
    return {"name": "decoder and encoder", "sites": len(a.sites), "ok": sum(v == "ok" for v in a.sites.values()), "owned": owned, "bad": bad, "maybe": maybe,
            "init_bad": [], "init_maybe": [], "reads": 0, "functions": sorted(a.functions)}
