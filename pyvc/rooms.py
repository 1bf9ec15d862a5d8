"""Hoare-style proof of noqx.rule.helper.full_bfs from its current source, for every board, edge set and clue set.

The function is executed symbolically from its AST.  Cells are pairs of integers, finite sets of cells are predicates, the
work list is a set (its order is irrelevant; that nothing is queued twice is an obligation).  The two loops are cut by the
invariants stated below; everything else (nested functions, the neighbour generator, conditionals) is executed.

Ghost definitions, independent of the code:
  G(p)      p is on the board
  N(p, q)   q is an orthogonal neighbour of p and no drawn edge separates them
  RS(p)     any predicate with RS(start) that is closed under N inside G (so in particular: p can be reached from the start)

Outer invariant:  U within G;  R = G \\ U is closed under N.
Inner invariant:  C within U0;  start in C;  Q within C;  U = U0 \\ C;  RS on C;  C \\ Q has all its neighbours in C;
                  the clue, if any, is a clue cell of C;  if C \\ Q has a clue cell then there is a clue.
Obligation at the insertion of a room: non-empty, disjoint from R, connected (RS), closed (no neighbour outside), right clue.
Variants: |U| for the outer loop, 2|U| + |Q| for the inner one.
"""
import ast
import inspect
import time

import z3

from .interp import func_ast


class Unsup(Exception):
    pass


I = z3.Int
_n = [0]


def fresh(name):
    _n[0] += 1
    return f"{name}!{_n[0]}"


def as_bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def cell(x):
    if isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, (int, z3.ArithRef)) for y in x):
        return x
    raise Unsup("a cell is expected")


def same(a, b):
    return z3.And(a[0] == b[0], a[1] == b[1])


class Set:
    """A mutable set of cells; has: predicate over two integer terms."""

    def __init__(self, has, role=None):
        self.has, self.role = has, role

    def add(self, x, g):
        old = self.has
        self.has = lambda p: z3.Or(old(p), z3.And(g, same(p, x)))

    def drop(self, x, g):
        old = self.has
        self.has = lambda p: z3.And(old(p), z3.Not(z3.And(g, same(p, x))))


class Queue(Set):
    pass


class Frozen:
    """tuple(S) / list(S) / sorted(S): the cells of a set at that moment."""

    def __init__(self, s):
        self.has = s.has


class Opt:
    """None or a cell."""

    def __init__(self, some, val):
        self.some, self.val = some, val


class Edges:
    pass


class Clues:
    pass


class Edge:
    """edges.get(Point(r, c, d)): True, False or None."""

    def __init__(self, true, present):
        self.true, self.present = true, present


class Pt:
    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d


class Result:
    pass


class Lst:
    """A list built cell by cell: (guard, value)."""

    def __init__(self, items=()):
        self.items = list(items)


class Fn:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Env:
    def __init__(self, parent=None):
        self.v, self.parent, self.nonlocal_ = {}, parent, set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.v:
                return e, e.v[name]
            e = e.parent
        return None, None


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Prover:
    def __init__(self, mod):
        self.mod = mod
        self.hyp = []  # assumptions on the current path
        self.guard = [z3.BoolVal(True)]
        self.obs = []  # (name, hyps, goal)
        self.rows, self.cols = I("rows"), I("cols")
        self.WL = z3.Function("wall_left", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.WT = z3.Function("wall_top", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.PR = {d: z3.Function(f"entry_{d}", z3.IntSort(), z3.IntSort(), z3.BoolSort()) for d in ("left", "top")}
        self.CL = z3.Function("clue_at", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.RS = z3.Function("reach", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.any_clue = z3.Bool("has_clues")
        p = (I("x"), I("y"))
        self.hyp.append(z3.Implies(z3.Not(self.any_clue), z3.ForAll(list(p), z3.Not(self.CL(*p)))))
        self.hyp += [self.rows >= 0, self.cols >= 0]
        self.start = None
        self.outer = None  # U at the start of the outer iteration
        self.counts = None
        self.inserted = 0
        self.used = set()

    # -- specification
    def G(self, p):
        return z3.And(p[0] >= 0, p[0] < self.rows, p[1] >= 0, p[1] < self.cols)

    def N(self, p, q):
        return z3.Or(
            z3.And(q[0] == p[0], q[1] == p[1] - 1, z3.Not(self.WL(p[0], p[1]))),
            z3.And(q[0] == p[0], q[1] == p[1] + 1, z3.Not(self.WL(q[0], q[1]))),
            z3.And(q[1] == p[1], q[0] == p[0] - 1, z3.Not(self.WT(p[0], p[1]))),
            z3.And(q[1] == p[1], q[0] == p[0] + 1, z3.Not(self.WT(q[0], q[1]))),
        )

    def forall(self, n, f):
        vs = [(I(fresh("a")), I(fresh("b"))) for _ in range(n)]
        return z3.ForAll([x for v in vs for x in v], f(*vs))

    def oblige(self, name, goal):
        self.obs.append((name, list(self.hyp) + [z3.And(*self.guard)], as_bool(goal)))

    def g(self):
        return z3.simplify(z3.And(*self.guard))

    # -- values
    def truth(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return as_bool(v)
        if v is None:
            return z3.BoolVal(False)
        if isinstance(v, Opt):
            return v.some
        if isinstance(v, Set):
            return ("nonempty", v)
        if isinstance(v, Clues):
            return self.any_clue
        if isinstance(v, Edge):
            return v.true
        raise Unsup(f"truth of {type(v).__name__}")

    def merge(self, g, new, old):
        if new is old:
            return new
        if z3.is_true(z3.simplify(g)):
            return new
        if isinstance(new, tuple) and isinstance(old, tuple) and len(new) == len(old):
            return tuple(self.merge(g, a, b) for a, b in zip(new, old))
        if isinstance(new, (int, z3.ArithRef)) and isinstance(old, (int, z3.ArithRef)) and not isinstance(new, bool):
            return z3.If(g, new, old)
        if isinstance(new, (bool, z3.BoolRef)) and isinstance(old, (bool, z3.BoolRef)):
            return z3.If(g, as_bool(new), as_bool(old))
        a, b = self.opt(new), self.opt(old)
        if a is not None and b is not None:
            return Opt(z3.If(g, a.some, b.some), tuple(z3.If(g, x, y) for x, y in zip(a.val, b.val)))
        raise Unsup("values of two branches cannot be merged")

    def opt(self, v):
        if v is None:
            return Opt(z3.BoolVal(False), (z3.IntVal(0), z3.IntVal(0)))
        if isinstance(v, Opt):
            return v
        if isinstance(v, tuple) and len(v) == 2:
            return Opt(z3.BoolVal(True), v)
        return None

    # -- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsup(f"{type(e).__name__} at line {e.lineno}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        s, v = env.lookup(e.id)
        if s is not None:
            return v
        g = self.mod.__dict__
        if e.id in g:
            return g[e.id]
        b = getattr(__import__("builtins"), e.id, None)
        if b is None:
            raise Unsup(f"name {e.id}")
        return b

    def e_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, (Set, Edges, Lst, Clues)):
            return ("method", o, e.attr)
        if isinstance(o, Pt):
            return {"r": o.r, "c": o.c, "d": o.d}.get(e.attr) or self.bad("point attribute")
        if isinstance(o, (tuple, Opt, z3.ExprRef, Frozen, Result)):
            raise Unsup("attribute")
        return getattr(o, e.attr)

    def bad(self, m):
        raise Unsup(m)

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult) and (isinstance(a, int) or isinstance(b, int)):
                return a * b
        raise Unsup("arithmetic")

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return ("empty", t[1]) if isinstance(t, tuple) else z3.Not(t)
        if isinstance(e.op, ast.USub) and isinstance(v, (int, z3.ArithRef)):
            return -v
        raise Unsup("operator")

    def e_BoolOp(self, e, env):
        out = []
        n = 0
        for x in e.values:
            t = self.truth(self.ev(x, env))
            if isinstance(t, tuple):
                raise Unsup("truth of a set in a condition")
            out.append(t)
            self.guard.append(t if isinstance(e.op, ast.And) else z3.Not(t))
            n += 1
        del self.guard[len(self.guard) - n:]
        return z3.And(*out) if isinstance(e.op, ast.And) else z3.Or(*out)

    def e_IfExp(self, e, env):
        t = self.truth(self.ev(e.test, env))
        if isinstance(t, tuple):
            raise Unsup("truth of a set in a condition")
        a, b = self.ev(e.body, env), self.ev(e.orelse, env)
        if isinstance(a, Set) and isinstance(b, Set):
            ah, bh = a.has, b.has
            return Set(lambda p: z3.If(t, ah(p), bh(p)), a.role or b.role)
        return self.merge(t, a, b)

    def e_Compare(self, e, env):
        if len(e.ops) != 1:
            parts, left = [], e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(self.compare(op, self.ev(left, env), self.ev(r, env)))
                left = r
            return z3.And(*[as_bool(x) for x in parts])
        return self.compare(e.ops[0], self.ev(e.left, env), self.ev(e.comparators[0], env))

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            if not isinstance(b, (Set, Frozen)):
                raise Unsup("membership")
            r = b.has(cell(a))
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            r = None
            if isinstance(a, Edge) and isinstance(b, bool):
                r = a.true if b else z3.And(a.present, z3.Not(a.true))
            elif isinstance(a, Edge) and b is None:
                r = z3.Not(a.present)
            elif b is None:
                if isinstance(a, Clues):
                    raise Unsup("clues compared with None")
                o = self.opt(a)
                r = z3.Not(o.some) if o is not None else None
            elif isinstance(a, ("".__class__,)):
                r = None
            elif isinstance(a, tuple) and len(a) == 2 and not isinstance(a[0], str) and isinstance(b, tuple) and len(b) == 2 and not isinstance(op, (ast.Is, ast.IsNot)):
                r = same(cell(a), cell(b))
            elif isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)) and not isinstance(op, (ast.Is, ast.IsNot)):
                r = as_bool(a == b)
            elif isinstance(a, tuple) and a and a[0] == "len" and isinstance(b, int) and b == 0:
                return ("empty", a[1]) if isinstance(op, (ast.Is, ast.Eq)) else ("nonempty", a[1])
            if r is None:
                raise Unsup("comparison")
            return z3.Not(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if isinstance(a, tuple) and a and a[0] == "len" and isinstance(b, int):
            if (isinstance(op, ast.Gt) and b == 0) or (isinstance(op, ast.GtE) and b == 1):
                return ("nonempty", a[1])
            raise Unsup("size of a set")
        if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        raise Unsup("comparison")

    def e_Set(self, e, env):
        s = Set(lambda p: z3.BoolVal(False))
        for x in e.elts:
            s.add(cell(self.ev(x, env)), z3.BoolVal(True))
        return s

    def e_List(self, e, env):
        return Lst([(z3.BoolVal(True), self.ev(x, env)) for x in e.elts])

    def e_Dict(self, e, env):
        if e.keys:
            raise Unsup("dict display")
        return Result()

    def e_SetComp(self, e, env):
        return self.comp(e, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def e_ListComp(self, e, env):
        return self.comp(e, env)

    def comp(self, e, env):
        """{(r, c) for ... in range(...)} and {(r, c) for (r, c, _, _) in clues}."""
        inner = Env(env)
        binders, conds, role = [], [], "grid"
        for gen in e.generators:
            it = self.ev(gen.iter, inner)
            if isinstance(it, range) or (isinstance(it, tuple) and it and isinstance(it[0], str) and it[0] == "range"):
                if not isinstance(gen.target, ast.Name):
                    raise Unsup("comprehension target")
                v = I(fresh("k"))
                lo, hi = (it.start, it.stop) if isinstance(it, range) else it[1:]
                conds += [v >= lo, v < hi]
                inner.v[gen.target.id] = v
                binders.append(v)
            elif isinstance(it, Clues):
                role = "clues"
                r, c = I(fresh("k")), I(fresh("k"))
                conds.append(self.CL(r, c))
                if isinstance(gen.target, ast.Name):
                    inner.v[gen.target.id] = Pt(r, c, None)
                elif isinstance(gen.target, ast.Tuple) and len(gen.target.elts) == 4 and all(isinstance(x, ast.Name) for x in gen.target.elts):
                    for x, val in zip(gen.target.elts, (r, c, None, None)):
                        inner.v[x.id] = val
                    # a repeated name (_) is bound last to the last part, never to r or c unless they share it
                    if len({x.id for x in gen.target.elts[:2]} | {x.id for x in gen.target.elts[2:]}) < len({x.id for x in gen.target.elts[2:]}) + 2:
                        raise Unsup("comprehension target")
                else:
                    raise Unsup("comprehension target")
                binders += [r, c]
            else:
                raise Unsup("comprehension")
            for t in gen.ifs:
                x = self.truth(self.ev(t, inner))
                if isinstance(x, tuple):
                    raise Unsup("comprehension condition")
                conds.append(x)
        el = cell(self.ev(e.elt, inner))
        if any(not any(x.eq(b) for b in binders) for x in el if isinstance(x, z3.ExprRef)) or len(binders) != 2 or not all(isinstance(x, z3.ExprRef) for x in el) or el[0].eq(el[1]):
            raise Unsup("comprehension element")
        return Set(lambda p: z3.substitute(z3.And(*conds), (el[0], to_int(p[0])), (el[1], to_int(p[1]))), role)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Unsup("star arguments")
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if isinstance(f, tuple) and f[0] == "method":
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, Fn):
            return self.call(f, args, kw)
        return self.builtin(f, args, kw)

    def builtin(self, f, args, kw):
        import collections
        import random

        from noqx.puzzle import Direction, Point

        if f is range:
            if len(args) == 1:
                return ("range", 0, args[0])
            if len(args) == 2:
                return ("range", *args)
        if f in (set, frozenset) and not kw:
            if not args:
                return Set(lambda p: z3.BoolVal(False))
            a = args[0]
            if isinstance(a, (Set, Frozen)):
                return Set(a.has, getattr(a, "role", None))
            if isinstance(a, Lst) and all(z3.is_true(g) for g, _ in a.items):
                s = Set(lambda p: z3.BoolVal(False))
                for _, x in a.items:
                    s.add(cell(x), z3.BoolVal(True))
                return s
        if f is collections.deque and not kw:
            s = Queue(lambda p: z3.BoolVal(False))
            if not args:
                return s
            a = args[0]
            if isinstance(a, Lst) and len(a.items) <= 1:
                for _, x in a.items:
                    s.add(cell(x), z3.BoolVal(True))
                return s
            if isinstance(a, (Set, Frozen)):
                return Queue(a.has)
        if f in (tuple, list, sorted) and len(args) == 1 and not kw and isinstance(args[0], (Set, Frozen)):
            return Frozen(args[0])
        if f is dict and not args and not kw:
            return Result()
        if f is len and len(args) == 1 and isinstance(args[0], Set):
            return ("len", args[0])
        if f is bool and len(args) == 1:
            return self.truth(args[0])
        if isinstance(f, type(random.choice)) and getattr(f, "__name__", "") == "choice" and len(args) == 1 and isinstance(args[0], Frozen):
            return self.pick(args[0].has, "random.choice of something")
        if f is Point:
            names = ["r", "c", "d", "pos"]
            a = dict(zip(names, args))
            a.update(kw)
            return Pt(a["r"], a["c"], a.get("d", Direction.CENTER))
        if f is min and len(args) == 1 and isinstance(args[0], (Set, Frozen)):
            return self.pick(args[0].has, "minimum of something")
        if f is next and len(args) == 1 and isinstance(args[0], tuple) and args[0] and args[0][0] == "iter":
            return self.pick(args[0][1].has, "next of something")
        if f is iter and len(args) == 1 and isinstance(args[0], Set):
            return ("iter", args[0])
        raise Unsup(f"call of {getattr(f, '__name__', f)}")

    def pick(self, has, what):
        """An arbitrary element; the set must not be empty."""
        x, y = I(fresh("pick")), I(fresh("pick"))
        self.oblige(f"{what} that is not empty", z3.Exists([x, y], has((x, y))))
        self.hyp.append(has((x, y)))
        return (x, y)

    def method(self, o, name, args, kw):
        g = self.g()
        if isinstance(o, Edges) and name == "get" and len(args) == 1 and isinstance(args[0], Pt):
            p = args[0]
            d = getattr(p.d, "value", None)
            if d not in ("left", "top"):
                raise Unsup("an edge that is neither left nor top")
            w = self.WL if d == "left" else self.WT
            return Edge(z3.And(self.PR[d](p.r, p.c), w(p.r, p.c)), self.PR[d](p.r, p.c))
        if isinstance(o, Queue):
            if name in ("append", "appendleft") and len(args) == 1:
                x = cell(args[0])
                self.oblige("nothing is queued twice", z3.Not(o.has(x)))
                if self.counts is not None:
                    self.counts["app"].append(g)
                o.add(x, g)
                return None
            if name in ("popleft", "pop") and not args:
                if not z3.is_true(g):
                    raise Unsup("conditional pop")
                x = self.pick(o.has, "the queue popped")
                o.drop(x, z3.BoolVal(True))
                if self.counts is not None:
                    self.counts["pop"] += 1
                return x
        elif isinstance(o, Set):
            if name == "add" and len(args) == 1:
                if o.role in ("grid", "clues"):
                    raise Unsup("the set of cells grows")
                o.add(cell(args[0]), g)
                return None
            if name in ("remove", "discard") and len(args) == 1:
                x = cell(args[0])
                if name == "remove":
                    self.oblige("a removed cell is in the set", o.has(x))
                if self.counts is not None and o.role == "grid":
                    self.counts["rem"].append(z3.And(g, o.has(x)))
                o.drop(x, g)
                return None
            if name == "copy" and not args:
                return Set(o.has)
            if name == "pop" and not args and z3.is_true(g):
                x = self.pick(o.has, "the set popped")
                if self.counts is not None and o.role == "grid":
                    self.counts["rem"].append(z3.BoolVal(True))
                o.drop(x, z3.BoolVal(True))
                return x
        elif isinstance(o, Lst) and name == "append" and len(args) == 1:
            o.items.append((g, args[0]))
            return None
        raise Unsup(f"method {name}")

    # -- statements
    def call(self, f, args, kw, on_yield=None):
        node = f.node
        env = Env(f.env)
        names = [a.arg for a in node.args.args]
        if node.args.vararg or node.args.kwarg or node.args.kwonlyargs or node.args.posonlyargs or node.args.defaults or len(args) > len(names):
            raise Unsup("signature")
        a = dict(zip(names, args))
        a.update(kw)
        if set(a) != set(names):
            raise Unsup("arguments")
        env.v.update(a)
        if is_generator(node) and on_yield is None:
            return ("gen", f, args, kw)
        self.yields = getattr(self, "yields", [])
        self.yields.append(on_yield)
        self.used.add(node.name)
        try:
            self.block(node.body, env)
        except Return as ret:
            return ret.v
        finally:
            self.yields.pop()
        return None

    def block(self, body, env):
        for s in body:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsup(f"{type(s).__name__} at line {s.lineno}")
            m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Assert(self, s, env):
        raise Unsup("assert")

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Unsup("decorator")
        env.v[s.name] = Fn(s, env)

    def s_Nonlocal(self, s, env):
        env.nonlocal_ |= set(s.names)

    def s_Expr(self, s, env):
        e = s.value
        if isinstance(e, ast.Constant):
            return
        if isinstance(e, ast.Yield):
            cb = self.yields[-1]
            if cb is None:
                raise Unsup("yield")
            v = self.ev(e.value, env)
            self.yields.append(None)
            try:
                cb(v)
            finally:
                self.yields.pop()
            return
        self.ev(e, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        o = self.ev(s.target, env)
        v = self.ev(s.value, env)
        if isinstance(o, Set) and isinstance(v, Set):
            if isinstance(s.op, ast.Sub):
                raise Unsup("set difference")
            if isinstance(s.op, ast.BitOr) and o.role is None:
                g, old, new = self.g(), o.has, v.has
                o.has = lambda p: z3.Or(old(p), z3.And(g, new(p)))
                return
        if isinstance(o, (int, z3.ArithRef)) and isinstance(v, (int, z3.ArithRef)) and isinstance(s.op, (ast.Add, ast.Sub)):
            self.assign(s.target, o + v if isinstance(s.op, ast.Add) else o - v, env)
            return
        raise Unsup("augmented assignment")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            where = env
            if t.id in env.nonlocal_:
                where = env.parent.lookup(t.id)[0]
            if t.id in where.v and not z3.is_true(self.g()):
                v = self.merge(self.g(), v, where.v[t.id])
            where.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(t.elts) or (v and isinstance(v[0], str)):
                raise Unsup("unpacking")
            for a, b in zip(t.elts, v):
                self.assign(a, b, env)
        elif isinstance(t, ast.Subscript) and isinstance(self.ev(t.value, env), Result):
            self.insert(self.ev(t.slice, env), v)
        else:
            raise Unsup("assignment target")

    def s_If(self, s, env):
        t = self.truth(self.ev(s.test, env))
        if isinstance(t, tuple):
            raise Unsup("truth of a set in a condition")
        for body, c in ((s.body, t), (s.orelse, z3.Not(t))):
            if not body or z3.is_false(z3.simplify(c)):
                continue
            whole = z3.is_true(z3.simplify(c))
            if not whole:
                self.guard.append(c)
            try:
                self.block(body, env)
            except Return:
                if not whole:
                    raise Unsup("conditional return") from None
                raise
            finally:
                if not whole:
                    self.guard.pop()

    def s_Return(self, s, env):
        raise Return(None if s.value is None else self.ev(s.value, env))

    def s_For(self, s, env):
        if s.orelse:
            raise Unsup("for-else")
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in s.body for x in ast.walk(b)):
            raise Unsup("leaving a loop early")
        it = self.ev(s.iter, env)

        def body(v):
            self.assign(s.target, v, env)
            self.block(s.body, env)

        if isinstance(it, tuple) and it and isinstance(it[0], str) and it[0] == "gen":
            self.call(it[1], it[2], it[3], on_yield=body)
        elif isinstance(it, Lst) or (isinstance(it, tuple) and not (it and isinstance(it[0], str))):
            for g, v in (it.items if isinstance(it, Lst) else [(z3.BoolVal(True), x) for x in it]):
                self.guard.append(g)
                try:
                    body(v)
                finally:
                    self.guard.pop()
        else:
            raise Unsup("loop over something else")

    def s_While(self, s, env):
        if s.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in s.body for x in ast.walk(b)):
            raise Unsup("leaving a loop early")
        if not z3.is_true(self.g()):
            raise Unsup("conditional loop")
        t = self.ev(s.test, env)
        if isinstance(t, (Set, Clues, Opt)):
            t = self.truth(t)
        if not (isinstance(t, tuple) and t[0] == "nonempty"):
            raise Unsup("loop condition")
        s_ = t[1]
        if isinstance(s_, Queue):
            self.inner(s, env, s_)
        elif s_.role == "grid":
            self.outer_loop(s, env, s_)
        else:
            raise Unsup("loop without a stated invariant")

    # -- the outer loop
    def outer_inv(self, u):
        has = u.has
        rest = lambda p: z3.And(self.G(p), z3.Not(has(p)))
        return {
            "unexplored cells are on the board": self.forall(1, lambda p: z3.Implies(has(p), self.G(p))),
            "the explored part has no way out": self.forall(2, lambda p, q: z3.Implies(z3.And(rest(p), self.G(q), self.N(p, q)), rest(q))),
        }

    def havoc_set(self, s, name):
        f = z3.Function(fresh(name), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        s.has = lambda p: f(to_int(p[0]), to_int(p[1]))

    def outer_loop(self, s, env, u):
        if self.outer is not None:
            raise Unsup("nested outer loop")
        p = (I("x0"), I("y0"))
        self.oblige("the rooms start from the whole board", z3.ForAll(list(p), u.has(p) == self.G(p)))
        for k, f in self.outer_inv(u).items():
            self.oblige(f"at the start: {k}", f)
        self.check_state(s, env, {id(u)})
        base = list(self.hyp)
        self.havoc_set(u, "unexplored")
        self.hyp += list(self.outer_inv(u).values())
        after = list(self.hyp)
        has0 = u.has
        # one iteration
        self.outer = has0
        self.inserted = 0
        e = (I(fresh("w")), I(fresh("w")))
        self.hyp.append(has0(e))
        self.block(s.body, env)
        if self.inserted != 1:
            raise Unsup("not exactly one room per round")
        for k, f in self.outer_inv(u).items():
            self.oblige(f"kept: {k}", f)
        x = (I(fresh("a")), I(fresh("b")))
        self.oblige("every round explores new cells", z3.And(self.forall(1, lambda p: z3.Implies(u.has(p), has0(p))), z3.Exists(list(x), z3.And(has0(x), z3.Not(u.has(x))))))
        room = self.room
        self.oblige("the explored cells are those of the rooms", self.forall(1, lambda p: u.has(p) == z3.And(has0(p), z3.Not(room(p)))))
        # afterwards
        self.hyp = after
        u.has = lambda p: z3.BoolVal(False)
        self.outer = None
        self.done_outer = True
        del base

    def check_state(self, s, env, allowed):
        """Nothing but the stated objects may change in the loop: other objects that live outside it must not be mutated."""
        e = env
        seen = []
        while e is not None:
            for n, v in e.v.items():
                if isinstance(v, Set) and id(v) not in allowed:
                    seen.append(v)
            e = e.parent
        assigned = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in assigned:
            e, v = env.lookup(n)
            if e is not None and not isinstance(v, (Opt, type(None), tuple)):
                del e.v[n]  # reassigned inside before use, or an unknown name is reported
        self.frozen = getattr(self, "frozen", []) + [(v, v.has) for v in seen]

    def frozen_ok(self):
        if any(v.has is not h for v, h in getattr(self, "frozen", [])):
            raise Unsup("a set outside the stated invariant changes in a loop")

    # -- the inner loop
    def inner(self, s, env, q):
        if self.outer is None or self.start is not None:
            raise Unsup("search outside the stated structure")
        sets, opts = {}, {}
        e = env
        while e is not None:
            for n, v in e.v.items():
                if isinstance(v, Set) and not isinstance(v, Queue):
                    sets[id(v)] = v
            e = e.parent
        us = [v for v in sets.values() if v.role == "grid"]
        cs = [v for v in sets.values() if v.role is None]
        if len(us) != 1 or len(cs) != 1:
            raise Unsup("the sets of the search are not recognised")
        u, c = us[0], cs[0]
        assigned = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in sorted(assigned):
            w, v = env.lookup(n)
            if w is not None and (v is None or isinstance(v, Opt)):
                opts[n] = w
            elif w is not None and not isinstance(v, (Set, Edges, Clues, Fn)):
                del w.v[n]
            elif w is not None:
                raise Unsup("a loop variable is reassigned")
        if len(opts) > 1:
            raise Unsup("several optional values")
        # ghost start: the single queued cell
        st = (I(fresh("start")), I(fresh("start")))
        x = (I(fresh("a")), I(fresh("b")))
        self.oblige("the search starts with one cell", z3.Exists(list(x), z3.And(q.has(x), z3.ForAll([st[0], st[1]], z3.Implies(q.has(st), same(st, x))))))
        self.hyp.append(q.has(st))
        self.start = st
        RS = lambda p: self.RS(to_int(p[0]), to_int(p[1]))
        self.hyp.append(RS(st))
        self.hyp.append(self.forall(2, lambda p, r: z3.Implies(z3.And(RS(p), self.G(r), self.N(p, r)), RS(r))))
        u0 = self.outer

        def inv():
            ch, qh, uh = c.has, q.has, u.has
            out = {
                "the room grows inside the unexplored cells": self.forall(1, lambda p: z3.Implies(ch(p), z3.And(u0(p), self.G(p)))),
                "the start is in the room": ch(st),
                "queued cells are in the room": self.forall(1, lambda p: z3.Implies(qh(p), ch(p))),
                "explored cells are exactly those of the room": self.forall(1, lambda p: uh(p) == z3.And(u0(p), z3.Not(ch(p)))),
                "every cell of the room can be reached": self.forall(1, lambda p: z3.Implies(ch(p), RS(p))),
                "finished cells have all their neighbours in the room": self.forall(2, lambda p, r: z3.Implies(z3.And(ch(p), z3.Not(qh(p)), self.G(r), self.N(p, r)), ch(r))),
            }
            for n, w in opts.items():
                o = self.opt(w.v[n])
                out[f"the clue cell is a clue of the room"] = z3.Implies(o.some, z3.And(self.CL(to_int(o.val[0]), to_int(o.val[1])), ch(o.val)))
                out[f"a finished clue cell is noticed"] = self.forall(1, lambda p: z3.Implies(z3.And(ch(p), z3.Not(qh(p)), self.CL(*p)), o.some))
            return out

        for k, f in inv().items():
            self.oblige(f"at the start of the search: {k}", f)
        self.havoc_set(c, "room")
        self.havoc_set(q, "queue")
        self.havoc_set(u, "unexplored")
        for n, w in opts.items():
            w.v[n] = Opt(z3.Bool(fresh("some")), (I(fresh("clue")), I(fresh("clue"))))
        self.hyp += list(inv().values())
        after, saved = list(self.hyp), (c.has, q.has, u.has, {n: w.v[n] for n, w in opts.items()})
        others = [(v, v.has) for v in sets.values() if v is not u and v is not c]
        e0 = (I(fresh("w")), I(fresh("w")))
        self.hyp.append(q.has(e0))
        self.counts = {"rem": [], "app": [], "pop": 0}
        self.block(s.body, env)
        for k, f in inv().items():
            self.oblige(f"kept by the search: {k}", f)
        n = self.counts
        tot = lambda xs: z3.Sum([z3.If(x, 1, 0) for x in xs] + [z3.IntVal(0)])
        self.oblige("the search comes to an end", z3.And(n["pop"] >= 1, 2 * tot(n["rem"]) - tot(n["app"]) + n["pop"] > 0))
        self.counts = None
        if any(v.has is not h for v, h in others):
            raise Unsup("another set changes in the search")
        # after the loop: the queue is empty
        self.hyp = after
        c.has, _, u.has, vals = saved
        q.has = lambda p: z3.BoolVal(False)
        for m, w in opts.items():
            w.v[m] = vals[m]
        self.hyp.append(z3.And(*[z3.substitute(f, *[]) for f in inv().values()]))
        qh = saved[1]
        self.hyp.append(self.forall(1, lambda p: z3.Not(qh(p))))

    # -- a room is entered into the result
    def insert(self, key, val):
        if self.outer is None or self.start is None or not z3.is_true(self.g()):
            raise Unsup("a room outside the stated structure")
        if not isinstance(key, Frozen):
            raise Unsup("the key of a room")
        self.inserted += 1
        has, st, u0 = key.has, self.start, self.outer
        self.room = has
        RS = lambda p: self.RS(to_int(p[0]), to_int(p[1]))
        o = self.opt(val)
        if o is None:
            raise Unsup("the clue of a room")
        x = (I(fresh("a")), I(fresh("b")))
        self.oblige("a room is not empty", z3.Exists(list(x), has(x)))
        self.oblige("a room has no cell of an earlier room", self.forall(1, lambda p: z3.Implies(has(p), z3.And(u0(p), self.G(p)))))
        self.oblige("cells of one room are joined by a path", z3.And(has(st), self.forall(1, lambda p: z3.Implies(has(p), RS(p)))))
        self.oblige("a step that crosses no edge stays in the room", self.forall(2, lambda p, q: z3.Implies(z3.And(has(p), self.G(q), self.N(p, q)), has(q))))
        self.oblige("the clue of a room is one of its clue cells", z3.Implies(o.some, z3.And(self.CL(to_int(o.val[0]), to_int(o.val[1])), has(o.val))))
        self.oblige("a room with a clue cell has a clue", self.forall(1, lambda p: z3.Implies(z3.And(has(p), self.CL(*p)), o.some)))
        self.start = None


def to_int(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def is_generator(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))
    return False


class Outcome:
    def __init__(self):
        self.total = self.done = self.calls = 0
        self.secs = 0.0
        self.failed, self.unknown, self.functions, self.samples, self.detail = [], [], [], [], {}
        self.unsupported = None


def prove(mod, timeout=20000):
    res = Outcome()
    t0 = time.time()
    try:
        node = func_ast(mod.full_bfs)
        p = Prover(mod)
        env = Env()
        for n, v in (("rows", p.rows), ("cols", p.cols), ("edges", Edges()), ("clues", Clues())):
            env.v[n] = v
        names = [a.arg for a in node.args.args]
        if names != ["rows", "cols", "edges", "clues"]:
            raise Unsup("signature of full_bfs")
        # an entry that is True is a wall: the wall predicate is the entry's value
        x = (I("x"), I("y"))
        for d, w in (("left", p.WL), ("top", p.WT)):
            p.hyp.append(z3.ForAll(list(x), z3.Implies(w(*x), p.PR[d](*x))))
        try:
            p.block(node.body, env)
            raise Unsup("no result is returned")
        except Return as ret:
            if not isinstance(ret.v, Result) or not getattr(p, "done_outer", False):
                raise Unsup("the result is not the table of rooms") from None
        p.frozen_ok()
    except Unsup as e:
        res.unsupported = str(e)
        return res
    except Exception as e:  # the prover itself gave up
        res.unsupported = f"{type(e).__name__}: {e}"
        return res
    for name, hyps, goal in p.obs:
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*hyps)
        s.add(z3.Not(goal))
        res.total += 1
        res.calls += 1
        v = s.check()
        if v == z3.unsat:
            res.done += 1
        elif v == z3.sat:
            res.failed.append(name)
            res.detail[name] = str(s.model())[:2000]
        else:
            res.unknown.append(name)
    res.secs = time.time() - t0
    res.functions = ["noqx.rule.helper.full_bfs"] + [f"noqx.rule.helper.full_bfs.{x}" for x in sorted(p.used)]
    res.samples = [{"obligation": n} for n, _, _ in p.obs[-8:]]
    return res
