"""Statements, expressions and builtins of the symbolic executor."""
import ast
import os
import builtins
import collections
import enum
import itertools
import logging
import types

import z3

from .values import *
from .interp import *
from .interp import (_Break, _Continue, _Return, _NeedFork, _MISSING, _is_accref, SRange, ExcVal, Super, Slot, Env,
                     concrete_binop, deep_sym, engine_val, exists, map_entry, reordered, walk_own)
from . import interp as _I

_store_cache = {}


def stores(nodes):
    """Names assigned in a list of statements (not inside nested functions or comprehensions)."""
    key = tuple(id(n) for n in nodes)
    if key in _store_cache:
        return _store_cache[key][0]
    out = set()
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef,)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    _store_cache[key] = (out, nodes)
    return out


_elig = {}


def eligible(node, root):
    """May an `if` be summarised locally (all paths fall through, no variable escapes)?"""
    key = (id(node), id(root))
    if key in _elig:
        return _elig[key][0]
    ok = True
    plain = set()

    def visit(n):
        nonlocal ok
        if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.While,
                          ast.Try, ast.With, ast.Delete, ast.FunctionDef, ast.NamedExpr)):
            ok = False
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            plain.add(n.id)
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets) and \
                not (isinstance(n.value, ast.BinOp) or isinstance(n.value, ast.Constant) and isinstance(n.value.value, (bool, int))):
            ok = False
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            if not isinstance(n.op, ast.Add):
                ok = False
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.AugAssign) and c is n.target and isinstance(c, ast.Name):
                continue
            visit(c)

    for s in node.body + node.orelse:
        visit(s)
    if ok and plain and root is not None:
        def loads(n, names):
            return sum(1 for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)) and x.id in names)
        if loads(root, plain) != loads(node, plain):
            ok = False
    elif plain and root is None:
        ok = False
    _elig[key] = (ok, node, root)
    return ok


from . import loops  # noqa: E402


class Frame:
    def __init__(self, it, env, glob):
        self.it, self.env, self.glob = it, env, glob
        self.gen = None
        self.root = None

    # ------------------------------------------------------------ variables
    def var_depth(self, env, name):
        for e, names, assigned, depth in reversed(self.it.loopvars):
            if e is env and name in names and name in assigned:
                return depth
        return env.depth

    def load(self, name):
        env = self.env.find(name)
        if env is not None:
            v = env.vars[name]
            for e, names, assigned, depth in reversed(self.it.loopvars):
                if e is env and name in names:
                    if name in assigned:
                        break
                    if isinstance(v, (str, Rope)):
                        s = Slot("var", env, name)
                        s.depth = self.var_depth(env, name)
                        return Rope([AccRef(s)])
                    if isinstance(v, int) and not isinstance(v, bool) or is_int_e(v):
                        return loops.carry_read(self.it, env, name, v)
                    raise Unsupported(f"loop-carried variable {name}")
            if isinstance(v, loops.Last):
                return v.value(self.it)
            if isinstance(v, Poison):
                raise Unsupported(f"variable {name}: {v.why}")
            return v
        for e, names, assigned, depth in reversed(self.it.loopvars):
            if e is self.env and name in names and name not in assigned and name not in self.glob:
                raise Unsupported(f"loop-carried variable {name}")
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(("NameError", name))

    def assign_name(self, name, v):
        env = self.env
        if name in env.nonlocals:
            env = env.parent.find(name)
            if env.depth < self.it.cur.depth:
                raise Unsupported("nonlocal assignment in a loop")
        for e, names, assigned, depth in self.it.loopvars:
            if e is env and name in names:
                if _is_accref(v) and isinstance(v.pieces[0].slot, Slot) and v.pieces[0].slot.key() == ("var", id(env), name):
                    continue
                assigned.add(name)
        if _is_accref(v):
            s = v.pieces[0].slot
            if s.key() == ("var", id(env), name):
                rest = Rope(v.pieces[1:]).simple()
                if rest != "" if isinstance(rest, str) else True:
                    self.it.cur.add("accum", s, rest)
                return
        env.vars[name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y)
        elif isinstance(t, ast.Attribute):
            self.it.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.it.setitem(self.it.force(self.ev(t.value)), self.slice(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        it = self.it
        v = it.force(v)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v is None:
            raise PyRaise(("TypeError", "cannot unpack None"))
        if is_val_e(v):
            if not it.decide(Val.is_VStr(v)):
                raise PyRaise(("TypeError", "cannot unpack int"))
            v = Val.sval(v)
        if isinstance(v, SSplit):
            if star:
                raise Unsupported("starred unpacking of a split")
            if not it.decide(v.length() == n):
                raise PyRaise(("ValueError", "not enough values to unpack"))
            return [v.item(i) for i in range(n)]
        if isinstance(v, (tuple, list, str, range)):
            vs = list(v)
        elif isinstance(v, (EList, View)):
            es = it.entries_of(v)
            if not all(isinstance(e, One) for e in es):
                raise Unsupported("unpacking of a symbolic list")
            vs = [e.value for e in es]
        elif is_int_e(v) or is_bool_e(v) or isinstance(v, (int, bool)):
            raise PyRaise(("TypeError", "cannot unpack int"))
        else:
            raise Unsupported(f"unpacking of {type(v).__name__}")
        if star:
            i = star[0]
            k = len(vs) - (n - 1)
            if k < 0:
                raise PyRaise(("ValueError", "not enough values to unpack"))
            return vs[:i] + [EList([One(x) for x in vs[i:i + k]], "list", it.cur.depth)] + vs[i + k:]
        if len(vs) != n:
            raise PyRaise(("ValueError", "values to unpack"))
        return vs

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        try:
            self._stmt(s)
        except Unsupported as e:
            if not getattr(e, "where", None):
                e.where = f"{self.glob.get('__name__')}:{s.lineno}"
            raise

    def _stmt(self, s):
        it = self.it
        it.fuel -= 1
        if it.fuel < 0:
            raise Unsupported("out of fuel")
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            self.augassign(s)
        elif isinstance(s, ast.If):
            self.if_(s)
        elif isinstance(s, ast.For):
            self.for_(s)
        elif isinstance(s, ast.While):
            n = 0
            broke = False
            if not isinstance(self.cond(s.test), bool):
                try:
                    return loops.scan(self, s)
                except Unsupported as e:
                    if os.environ.get("PYVC_DEBUG"):
                        print("scan", getattr(e, "where", ""), e)
            while self.test(s.test):
                n += 1
                if n > 4000:
                    raise Unsupported("while loop without an invariant")
                if len(it.cur.taken) > 40:
                    raise Unsupported("while loop over symbolic data")
                try:
                    self.block(s.body)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                self.block(s.orelse)
        elif isinstance(s, ast.Return):
            raise _Return(self.ev(s.value) if s.value is not None else None)
        elif isinstance(s, ast.Raise):
            self.raise_(s)
        elif isinstance(s, ast.Assert):
            if not self.test(s.test):
                raise PyRaise(("AssertionError", "assert"))
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, ast.FunctionDef):
            self.assign_name(s.name, self.closure(s))
        elif isinstance(s, ast.Try):
            self.try_(s)
        elif isinstance(s, (ast.Nonlocal,)):
            self.env.nonlocals |= set(s.names)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            self.import_(s)
        elif isinstance(s, ast.With):
            self.with_(s)
        elif isinstance(s, ast.Global):
            self.it.globals_written.append((self.glob.get("__name__"), tuple(s.names)))
            raise Unsupported("global statement")
        elif isinstance(s, ast.Match):
            self.match_(s)
        else:
            raise Unsupported(f"statement {type(s).__name__}")

    def match_(self, s):
        subj = self.ev(s.subject)
        for case in s.cases:
            c = self.pattern(case.pattern, subj)
            if c is True or (c is not False and self.it.decide(c)):
                if case.guard is None or self.test(case.guard):
                    self.block(case.body)
                    return

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.it.eq(v, self.ev(p.value))
        if isinstance(p, ast.MatchSingleton):
            return self.it.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                c = self.pattern(p.pattern, v)
            else:
                c = True
            if p.name:
                self.assign_name(p.name, v)
            return c
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(q, v) for q in p.patterns]
            if any(c is True for c in cs):
                return True
            cs = [c for c in cs if c is not False]
            return z3.Or(cs) if cs else False
        raise Unsupported("match pattern")

    def with_(self, s):
        for item in s.items:
            cm = self.ev(item.context_expr)
            v = self.it.call(self.it.getattr(cm, "__enter__"), [], {})
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
        self.block(s.body)
        for item in reversed(s.items):
            self.it.call(self.it.getattr(cm, "__exit__"), [None, None, None], {})

    def import_(self, s):
        import importlib
        if isinstance(s, ast.Import):
            for a in s.names:
                m = importlib.import_module(a.name)
                self.assign_name(a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))
        else:
            m = importlib.import_module(s.module)
            for a in s.names:
                self.assign_name(a.asname or a.name, getattr(m, a.name))

    def raise_(self, s):
        if s.exc is None:
            e = self.env.vars.get("$exc")
            raise PyRaise(e or ("RuntimeError", ""))
        v = self.ev(s.exc)
        if isinstance(v, ExcVal):
            raise PyRaise((v.name, v.args[0] if v.args else ""))
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise((v.__name__, ""))
        if isinstance(v, BaseException):
            raise PyRaise((type(v).__name__, str(v)))
        raise Unsupported("raise")

    def try_(self, s):
        if s.finalbody and not s.handlers:
            try:
                self.block(s.body)
            finally:
                self.block(s.finalbody)
            return
        try:
            self.block(s.body)
        except PyRaise as e:
            name = e.exc[0]
            cls = getattr(builtins, name, Exception)
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.ev(h.type)
                    ts = t if isinstance(t, tuple) else (t,)
                    ok = any(issubclass(cls, x) for x in ts)
                if ok:
                    if h.name:
                        self.assign_name(h.name, ExcVal(name, [e.exc[1]]))
                    self.env.vars["$exc"] = e.exc
                    self.block(h.body)
                    break
            else:
                raise
        else:
            self.block(s.orelse)
        self.block(s.finalbody)

    def augassign(self, s):
        it = self.it
        t = s.target
        if isinstance(t, ast.Name):
            env = self.env.find(t.id)
            if env is None:
                raise PyRaise(("UnboundLocalError", t.id))
            vd = self.var_depth(env, t.id)
            if vd < it.cur.depth and any(e is env and t.id in names for e, names, a, d in it.loopvars):
                old = env.vars[t.id]
                v = it.force(self.ev(s.value))
                slot = Slot("var", env, t.id)
                slot.depth = vd
                if isinstance(s.op, ast.Add):
                    if isinstance(old, (str, Rope)):
                        it.cur.add("accum", slot, v)
                        return
                    if isinstance(old, EList):
                        for e in it.entries_of(v):
                            it.cur.add("append", old, e.value if isinstance(e, One) else e)
                        return
                    if isinstance(old, int) or is_int_e(old):
                        it.cur.add("accum", slot, it.to_int(v))
                        return
                raise Unsupported(f"loop-carried {t.id}")
            old = self.load(t.id)
            if isinstance(old, EList) and isinstance(s.op, ast.Add) and old.kind == "list":
                it.method(old, "extend", [self.ev(s.value)], {})
                return
            if isinstance(old, EList) and isinstance(s.op, ast.BitOr) and old.kind == "set":
                it.method(old, "update", [self.ev(s.value)], {})
                return
            self.assign_name(t.id, it.binop(s.op, old, self.ev(s.value)))
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.it.setattr(o, t.attr, it.binop(s.op, it.getattr(o, t.attr), self.ev(s.value)))
            return
        if isinstance(t, ast.Subscript):
            o = it.force(self.ev(t.value))
            k = self.slice(t.slice)
            old = it.getitem(o, k)
            if isinstance(old, EList) and isinstance(s.op, ast.Add):
                it.method(old, "extend", [self.ev(s.value)], {})
                return
            it.setitem(o, k, it.binop(s.op, old, self.ev(s.value)))
            return
        raise Unsupported("augmented assignment")

    def if_(self, s):
        it = self.it
        c = self.cond(s.test)
        if isinstance(c, bool):
            self.block(s.body if c else s.orelse)
            return
        c = z3.simplify(c)
        if it.cur.prefix and len(it.cur.taken) < len(it.cur.prefix):
            pass
        if eligible(s, self.root):
            neg = z3.simplify(z3.Not(c))
            t = it.feasible(it.cur.pc + [c])
            f = it.feasible(it.cur.pc + [neg])
            if t and not f:
                return self.block(s.body)
            if f and not t:
                return self.block(s.orelse)
            try:
                self.mini(s.body, c)
            except (_I.TooManyPaths,):
                raise
            if s.orelse:
                self.mini(s.orelse, neg)
            return
        self.block(s.body if it.decide(c) else s.orelse)

    def mini(self, body, c):
        it = self.it
        env = self.env
        saved = dict(env.vars)
        names = stores(body)

        def run():
            env.vars = dict(saved)
            it.loopvars.append(loops.LoopVar((env, names, set(), it.cur.depth), False))
            try:
                self.block(body)
            finally:
                it.loopvars.pop()

        try:
            outs, effs = it.explore(run, [], [c])
        finally:
            env.vars = saved
        check_carried(it, outs, effs)
        it.lift_effects(effs, [], [c])
        # a path that raises does not continue
        rs = [z3.And([c] + list(o[0])) for o in outs if o[1] == "raise"]
        if rs:
            it.survived(z3.simplify(z3.Not(z3.Or(rs))))

    def for_(self, s):
        it = self.it
        coll = it.force(self.ev(s.iter))
        if coll is None:
            raise PyRaise(("TypeError", "NoneType is not iterable"))
        if is_val_e(coll):
            if not it.decide(Val.is_VStr(coll)):
                raise PyRaise(("TypeError", "int is not iterable"))
            coll = Val.sval(coll)
        it.note_read(coll)
        names = stores(s.body + [s.target])
        broke = False

        def body(v):
            self.assign(s.target, v)
            self.block(s.body)

        group = []  # entries that share one run of the loop

        def flush():
            if group:
                gs = group[:]
                group.clear()
                check_carried(it, [o for g in gs for o in g[3]], [e for g in gs for e in g[2]])
                for _, m, effs in loops.resolve(it, self.env, names, [g[:3] for g in gs]):
                    it.lift_effects(effs, m.binders, m.guard)

        for e in list(it.entries_of(coll)):
            if isinstance(e, One):
                flush()
                try:
                    body(e.value)
                except _Continue:
                    continue
                except _Break:
                    broke = True
                    break
            else:
                if group and not (loops.same_source([group[0][0], e]) and loops.pending(it, self.env, names)):
                    flush()
                it.foreach_many(e, body, self.env, names, group)
                if not loops.pending(it, self.env, names):
                    flush()
        flush()
        if s.orelse and not broke:
            self.block(s.orelse)

    def test(self, e):
        c = self.cond(e)
        return c if isinstance(c, bool) else self.it.decide(c)

    def cond(self, e):
        """Truth value of an expression as native or z3 bool."""
        if isinstance(e, ast.BoolOp):
            v = self.boolop_cond(e.op, e.values)
            return v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.cond(e.operand)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        v = self.ev(e)
        self.it.note_read(v)
        return self.it.truth(v)

    def boolop_cond(self, op, values):
        it = self.it
        isand = isinstance(op, ast.And)
        acc = []
        for i, e in enumerate(values):
            if acc:
                ctx = [a if isand else z3.Not(a) for a in acc]
                if not it.feasible(it.cur.pc + ctx):
                    break
                reg = it.cur
                k, t = len(reg.pc), reg.taken
                reg.pc.extend(ctx)
                reg.no_fork += 1
                try:
                    c = self.cond(e)
                    bad = len(reg.pc) != k + len(ctx)
                    del reg.pc[k:k + len(ctx)]
                except (_NeedFork, PyRaise):
                    del reg.pc[k:]
                    reg.taken = t
                    reg.no_fork -= 1
                    try:
                        if reg.no_fork:
                            raise _NeedFork()
                        # decide the operands so far, then continue with a plain evaluation
                        for a in acc:
                            b = it.decide(a)
                            if b != isand:
                                return not isand
                        acc = []
                        c = self.cond(e)
                    finally:
                        reg.no_fork += 1
                finally:
                    reg.no_fork -= 1
            else:
                c = self.cond(e)
            if isinstance(c, bool):
                if c != isand:
                    if not acc:
                        return c
                    acc.append(z3.BoolVal(c))
                    break
                continue
            c = z3.simplify(c)
            acc.append(c)
        if not acc:
            return isand
        r = z3.simplify(z3.And(acc) if isand else z3.Or(acc))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    # ------------------------------------------------------------ expressions
    def closure(self, node):
        a = node.args
        d = [self.ev(x) for x in a.defaults]
        kd = [self.ev(x) if x is not None else _MISSING for x in a.kw_defaults]
        return _I.Closure(node, self.env, self.glob, getattr(node, "name", "<lambda>"), self.it.cur.depth, d, kd)

    def slice(self, s):
        if isinstance(s, ast.Slice):
            g = lambda x: self.it.force(self.ev(x)) if x is not None else None
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.ev(s)

    def ev(self, e):
        it = self.it
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            v = self.load(e.id)
            return v
        if isinstance(e, ast.Attribute):
            return it.getattr(self.ev(e.value), e.attr)
        if isinstance(e, ast.JoinedStr):
            out = []
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out.append(p.value)
                else:
                    v = self.ev(p.value)
                    out.append(self.fmt(v, p))
            return rope(*out)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Tuple):
            return tuple(self.elts(e.elts))
        if isinstance(e, ast.List):
            return EList(self.elt_entries(e.elts), "list", it.cur.depth)
        if isinstance(e, ast.Set):
            return EList(self.elt_entries(e.elts), "set", it.cur.depth)
        if isinstance(e, ast.Dict):
            es = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    o = self.ev(v)
                    es += list(it.entries_of(it.method(o, "items", [], {})))
                else:
                    es.append(One((self.ev(k), self.ev(v))))
            return EDict(es, it.cur.depth)
        if isinstance(e, ast.BinOp):
            return it.binop(e.op, self.ev(e.left), self.ev(e.right))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return self.cond(e)
            v = it.force(self.ev(e.operand))
            if isinstance(e.op, ast.USub):
                v = it.to_int(v)
                if v is None:
                    raise PyRaise(("TypeError", "bad operand"))
                return -v if isinstance(v, int) else z3.simplify(-v)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert) and isinstance(v, (int, enum.Flag)):
                return ~v
            raise Unsupported("unary operator")
        if isinstance(e, ast.BoolOp):
            return self.boolop(e)
        if isinstance(e, ast.Compare):
            return self.compare(e)
        if isinstance(e, ast.IfExp):
            return self.ifexp(e)
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value)
            it.note_read(o)
            return it.getitem(o, self.slice(e.slice))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            kind = "set" if isinstance(e, ast.SetComp) else "list"
            return EList(self.comp(e.generators, lambda f: f.ev(e.elt)), kind, it.cur.depth)
        if isinstance(e, ast.DictComp):
            return EDict(self.comp(e.generators, lambda f: (f.ev(e.key), f.ev(e.value))), it.cur.depth)
        if isinstance(e, ast.Lambda):
            return self.closure(e)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v)
            return v
        if isinstance(e, ast.Starred):
            raise Unsupported("starred expression")
        if isinstance(e, ast.Yield):
            if self.gen is None:
                raise Unsupported("yield")
            it.method(self.gen, "append", [self.ev(e.value) if e.value else None], {})
            return None
        if isinstance(e, ast.YieldFrom):
            it.method(self.gen, "extend", [self.ev(e.value)], {})
            return None
        if isinstance(e, ast.Await):
            return self.ev(e.value)
        raise Unsupported(f"expression {type(e).__name__}")

    def fmt(self, v, p):
        it = self.it
        v = it.force(v)
        if p.conversion not in (-1, 115) or p.format_spec is not None:
            if not engine_val(v):
                spec = self.ev(p.format_spec) if p.format_spec is not None else ""
                if p.conversion == 114:
                    v = repr(v)
                return format(v, spec)
            raise Unsupported("format specification")
        return to_text(it, v)

    def boolop(self, e):
        """and/or as a value."""
        it = self.it
        isand = isinstance(e.op, ast.And)
        # boolean-valued operands can be combined without forking
        if all(isinstance(x, (ast.Compare, ast.BoolOp)) or (isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)) or
               (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "any", "all"))
               for x in e.values):
            return self.boolop_cond(e.op, e.values)
        for x in e.values[:-1]:
            v = self.ev(x)
            t = it.truth(v)
            b = t if isinstance(t, bool) else it.decide(t)
            if b != isand:
                return v
            if isinstance(v, SOpt):
                v = v.value
        return self.ev(e.values[-1])

    def compare(self, e):
        it = self.it
        left = self.ev(e.left)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            it.note_read(left)
            it.note_read(right)
            c = it.compare(op, left, right)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
            left = right
        if not cs:
            return True
        return z3.simplify(z3.And(cs)) if len(cs) > 1 else cs[0]

    def ifexp(self, e):
        it = self.it
        c = self.cond(e.test)
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse)
        return self.ev(e.body if it.decide(c) else e.orelse)

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.it.force(self.ev(x.value))
                if isinstance(v, SSplit):
                    raise Unsupported("starred split")
                es = self.it.entries_of(v) if v is not None else self._none()
                if not all(isinstance(y, One) for y in es):
                    raise Unsupported("starred symbolic collection")
                out += [y.value for y in es]
            else:
                out.append(self.ev(x))
        return out

    def _none(self):
        raise PyRaise(("TypeError", "None is not iterable"))

    def elt_entries(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.it.entries_of(self.it.force(self.ev(x.value))))
            else:
                out.append(One(self.ev(x)))
        return out

    def call(self, e):
        it = self.it
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            obj = self.env.vars.get("self")
            for c in type(obj).__mro__:
                for v in c.__dict__.values():
                    if isinstance(v, types.FunctionType) and v.__globals__ is self.glob and v.__name__ == self.env.fname.split(".")[-1]:
                        return Super(c, obj)
            raise Unsupported("super")
        f = self.ev(e.func)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, EDict) and v.concrete():
                    for x in v.entries:
                        kw[x.value[0]] = x.value[1]
                elif isinstance(v, dict):
                    kw.update(v)
                else:
                    raise Unsupported("** of a symbolic dict")
            else:
                kw[k.arg] = v
        if isinstance(f, _I.Bound):
            it.note_read(f.obj, write=f.name in ("append", "add", "extend", "update", "setdefault", "appendleft", "insert"))
        for a in args:
            it.note_read(a)
        return it.call(f, args, kw)

    def comp(self, gens, fn):
        """Entries of a comprehension."""
        it = self.it
        env = Env(self.env, it.cur.depth, "<comp>")
        sub = Frame(it, env, self.glob)

        def rec(i):
            if i == len(gens):
                return [One(fn(sub))]
            g = gens[i]
            coll = it.force(sub.ev(g.iter))
            if coll is None:
                raise PyRaise(("TypeError", "None is not iterable"))
            it.note_read(coll)
            out = []
            for e in it.entries_of(coll):
                if isinstance(e, One):
                    sub.assign(g.target, e.value)
                    conds = []
                    ok = True
                    for c in g.ifs:
                        t = sub.cond(c)
                        if isinstance(t, bool):
                            if not t:
                                ok = False
                                break
                        else:
                            conds.append(t)
                    if not ok:
                        continue
                    if conds:
                        out += self.in_region(lambda: rec(i + 1), [], conds, env)
                    else:
                        out += rec(i + 1)
                else:
                    m = it.freshen(e)

                    def run(m=m):
                        sub.assign(g.target, m.value)
                        for c in g.ifs:
                            t = sub.cond(c)
                            if t is False:
                                return []
                            if t is not True:
                                t = z3.simplify(t)
                                if not it.feasible(it.cur.pc + [t]):
                                    return []
                                it.cur.pc.append(t)
                        return rec(i + 1)

                    out += self.in_region(run, m.binders, m.guard, env)
            return out

        return rec(0)

    def in_region(self, run, binders, guard, env):
        it = self.it
        saved = dict(env.vars)

        def body():
            env.vars = dict(saved)
            return run()

        outs, effs = it.explore(body, binders, guard)
        env.vars = saved
        check_carried(it, outs, effs)
        it.lift_effects(effs, binders, guard)
        res = []
        for pc, kind, value, reg in outs:
            if kind == "raise":
                continue
            if kind != "normal":
                raise Unsupported("control flow in a comprehension")
            for x in value:
                res.append(_many(binders, list(guard) + list(pc), x))
        return res


def _many(binders, guard, x):
    m = Many(binders, guard, x.value if isinstance(x, One) else x)
    return m if (m.binders or m.guard) else One(m.value)


def check_carried(it, outs, effs):
    reads = set()
    for o in outs:
        reads |= o[3].reads
    for e in effs:
        if e.target is not None and not isinstance(e.target, Slot) and id(e.target) in reads:
            raise Unsupported("a loop reads what it writes")


def to_text(it, v):
    if is_sym(v):
        if is_val_e(v):
            if it.entails(Val.is_VInt(v)):
                return Hole(z3.simplify(Val.ival(v)))
            if it.entails(Val.is_VStr(v)):
                return Hole(z3.simplify(Val.sval(v)))
        if is_bool_e(v):
            return "True" if it.decide(v) else "False"
        return Hole(v)
    if isinstance(v, (str, Rope)):
        return v
    if isinstance(v, (EList, EDict, SDict, Cells, Areas, SSplit, View, _I.Closure)) or (isinstance(v, tuple) and engine_val(v)):
        if isinstance(v, tuple) and not any(isinstance(x, (EList, EDict, SDict, Cells, Areas, SSplit, View)) for x in v):
            parts = []
            for i, x in enumerate(v):
                parts += [", " if i else "", _repr(it, x)]
            return rope("(", *parts, ",)" if len(v) == 1 else ")")
        return "<object>"
    if isinstance(v, ExcVal):
        return to_text(it, v.args[0] if v.args else "")
    return format(v)


def _repr(it, x):
    x = it.force(x)
    if isinstance(x, tuple):
        return to_text(it, x)
    if isinstance(x, str):
        return repr(x)
    if is_str_e(x) or isinstance(x, Rope):
        return rope("'", x, "'")
    return to_text(it, x)


# ---------------------------------------------------------------------------------------------- builtins
def b_isinstance(it, args, kw):
    v, t = args
    if isinstance(v, (SOpt, SUnion)):
        v = it.force(v)
    if isinstance(v, JList):
        return t is list or isinstance(t, tuple) and list in t
    ts = t if isinstance(t, tuple) else (t,)
    if is_val_e(v):
        cs = []
        for x in ts:
            if x is int:
                cs.append(Val.is_VInt(v))
            elif x is str:
                cs.append(Val.is_VStr(v))
        return z3.simplify(z3.Or(cs)) if cs else False
    kinds = []
    if is_int_e(v):
        kinds = [int]
    elif is_bool_e(v):
        kinds = [bool, int]
    elif is_str_e(v) or isinstance(v, Rope):
        kinds = [str]
    elif isinstance(v, EList):
        kinds = [{"list": list, "tuple": tuple, "set": set}[v.kind]]
    elif isinstance(v, EDict) or isinstance(v, SDict):
        kinds = [dict]
    elif isinstance(v, Cells):
        kinds = [tuple]
    elif is_dir_e(v):
        kinds = [Direction]
    elif is_col_e(v):
        kinds = [Color]
    elif isinstance(v, ExcVal):
        return any(issubclass(getattr(builtins, v.name, Exception), x) for x in ts)
    else:
        return isinstance(v, ts)
    return any(any(issubclass(k, x) for k in kinds) for x in ts)


def b_len(it, args, kw):
    v = it.force(args[0])
    it.note_read(v)
    if isinstance(v, EList):
        if v.concrete():
            return len(v.entries)
        if v.kind == "set":
            return it.agg("lenset", v.entries, z3.IntSort())
        return it.agg("len", v.entries, z3.IntSort())
    if isinstance(v, View):
        return b_len(it, [EList(v.entries)], kw)
    if isinstance(v, EDict):
        if v.concrete():
            return len(it.dict_entries(v))
        return it.agg("lenset", [map_entry(e, lambda kv: kv[0]) for e in v.entries], z3.IntSort())
    if isinstance(v, SDict):
        if getattr(v, "writes", None):
            raise Unsupported("len of a written map")
        t = uf(f"len_{v.name}", [], z3.IntSort())
        ks = [z3.Const(f"key{i}!{v.name}", v.domf.domain(i)) for i in range(v.domf.arity())]
        loops.SIZES[t.get_id()] = t, z3.Exists(ks, v.domf(*ks))
        return t
    if isinstance(v, Cells):
        return v.areas.f("size", v.idx, z3.IntSort())
    if isinstance(v, Areas):
        return uf(f"nareas_{v.key_}", list(v.args), z3.IntSort())
    if isinstance(v, SSplit):
        return v.length()
    if is_val_e(v):
        if not it.decide(Val.is_VStr(v)):
            raise PyRaise(("TypeError", "object of type 'int' has no len()"))
        v = z3.simplify(Val.sval(v))
    if is_str_e(v):
        return uf("strlen", [v], z3.IntSort())
    if isinstance(v, Rope):
        t = v.as_term()
        if t is None:
            raise Unsupported("len of symbolic text")
        return uf("strlen", [t], z3.IntSort())
    if isinstance(v, SRange):
        if v.step not in (1, -1):
            raise Unsupported("len of a stepped range")
        n = v.step * (lift(v.hi) - lift(v.lo))
        return z3.simplify(z3.If(n > 0, n, 0))
    if is_int_e(v) or is_bool_e(v):
        raise PyRaise(("TypeError", "object of type 'int' has no len()"))
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(("TypeError", str(e)))


def b_range(it, args, kw):
    args = [it.to_int(it.force(a)) for a in args]
    if any(a is None for a in args):
        raise PyRaise(("TypeError", "range"))
    if all(isinstance(a, int) for a in args):
        return range(*args)
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    st = args[2] if len(args) > 2 else 1
    if not isinstance(st, int):
        raise Unsupported("symbolic range step")
    return SRange(lo, hi, st)


def b_int(it, args, kw):
    if not args:
        return 0
    v = it.force(args[0])
    if len(args) > 1 or kw:
        if not engine_val(v):
            return it.native(int, args, kw)
        t = lift(v)
        if t is None and isinstance(v, Rope) and len(v.pieces) == 1 and isinstance(v.pieces[0], Join):
            t = it.agg(f"join{v.pieces[0].sep!r}", v.pieces[0].entries, StrSort)
        if t is None or not is_str_e(t):
            raise Unsupported("int with a base")
        base = args[1] if len(args) > 1 else kw["base"]
        if not it.decide(uf(f"isint_{base}", [t], z3.BoolSort())):
            raise PyRaise(("ValueError", "invalid literal for int()"))
        return uf(f"toint_{base}", [t], z3.IntSort())
    if is_val_e(v):
        if it.decide(Val.is_VInt(v)):
            return z3.simplify(Val.ival(v))
        v = z3.simplify(Val.sval(v))
    if isinstance(v, Rope):
        if len(v.pieces) == 1 and isinstance(v.pieces[0], Hole) and is_int_e(v.pieces[0].term):
            return v.pieces[0].term
        v = lift(v)
        if v is None:
            raise Unsupported("int of symbolic text")
    if is_str_e(v):
        if it.cur.pc and it.entails(uf("str_isdecimal", [v], z3.BoolSort())):
            return uf("toint", [v], z3.IntSort())  # decimal digits are an integer
        if not it.decide(uf("isint", [v], z3.BoolSort())):
            raise PyRaise(("ValueError", "invalid literal for int()"))
        return uf("toint", [v], z3.IntSort())
    if is_int_e(v):
        return v
    if is_bool_e(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if v is None:
        raise PyRaise(("TypeError", "int() argument"))
    return it.native(int, [v], {})


def b_str(it, args, kw):
    if not args:
        return ""
    v = it.force(args[0])
    return rope(to_text(it, v))


def b_bool(it, args, kw):
    t = it.truth(args[0]) if args else False
    return t


def b_abs(it, args, kw):
    v = it.to_int(it.force(args[0]))
    if isinstance(v, int):
        return abs(v)
    return z3.simplify(z3.If(v >= 0, v, -v))


def _coll(kind):
    def f(it, args, kw):
        if not args:
            return EList([], kind, it.cur.depth)
        v = it.force(args[0])
        it.note_read(v)
        if kind == "tuple" and isinstance(v, tuple):
            return v
        es = list(it.entries_of(v))
        if kind == "tuple" and all(isinstance(e, One) for e in es):
            return tuple(e.value for e in es)
        if kind == "set" and all(isinstance(e, One) for e in es):
            out = []
            for e in es:
                if not any(it.same(e.value, o.value) for o in out):
                    out.append(e)
            es = out
        return EList(es, kind, it.cur.depth)

    return f


def b_dict(it, args, kw):
    es = []
    if args:
        v = it.force(args[0])
        if isinstance(v, EDict):
            es = list(v.entries)
        elif isinstance(v, dict):
            es = [One(kv) for kv in v.items()]
        elif type(v) is SDict and not kw:
            return it.sdict_copy(v)
        elif isinstance(v, SDict):
            es = it.sdict_items(v)
        else:
            es = list(it.entries_of(v))
            es = [One(tuple(e.value)) if isinstance(e, One) else e for e in es]
    es += [One((k, x)) for k, x in kw.items()]
    return EDict(es, it.cur.depth)


def b_zip(it, args, kw):
    ess = [it.entries_of(it.force(a)) for a in args]
    if all(all(isinstance(e, One) for e in es) for es in ess):
        return View([One(t) for t in zip(*[[e.value for e in es] for es in ess])])
    raise Unsupported("zip of symbolic collections")


def b_any(it, args, kw):
    cs = []
    for e in it.entries_of(it.force(args[0])):
        t = it.truth(e.value)
        if isinstance(e, One):
            if t is True:
                return True
            if t is not False:
                cs.append(t)
        elif t is not False:
            cs.append(exists(e.binders, list(e.guard) + ([] if t is True else [t])))
    return z3.simplify(z3.Or(cs)) if cs else False


def b_all(it, args, kw):
    cs = []
    for e in it.entries_of(it.force(args[0])):
        t = it.truth(e.value)
        n = (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(e, One):
            if t is False:
                return False
            if t is not True:
                cs.append(t)
        elif n is not False:
            cs.append(z3.Not(exists(e.binders, list(e.guard) + ([] if n is True else [n]))))
    return z3.simplify(z3.And(cs)) if cs else True


def b_sum(it, args, kw):
    src = it.force(args[0])
    es = it.entries_of(src)
    acc = args[1] if len(args) > 1 else 0
    distinct = isinstance(src, EList) and src.kind == "set" and not all(isinstance(e, One) and not deep_sym(e.value) for e in es)
    manys = []
    for e in es:
        if isinstance(e, One) and not distinct:
            acc = it.binop(ast.Add(), acc, e.value)
            continue
        v, g, bs = (e.value, [], []) if isinstance(e, One) else (e.value, list(e.guard), e.binders)
        if is_val_e(v):
            # the operands are numbers wherever the element is present
            if it.feasible(it.cur.pc + g + [z3.Not(Val.is_VInt(v))]):
                raise Unsupported("sum of values that need not be numbers")
            v = z3.simplify(Val.ival(v))
        elif not is_bool_e(v):
            v = it.to_int(v)
        manys.append(Many(bs, g, v))
    if manys:
        return z3.simplify(lift(acc) + it.agg("sumset" if distinct else "sum", manys, z3.IntSort()))
    return acc


def _minmax(name):
    def f(it, args, kw):
        if len(args) > 1:
            es = [One(a) for a in args]
        else:
            es = it.entries_of(it.force(args[0]))
        if kw:
            raise Unsupported(f"{name} with options")
        if all(isinstance(e, One) for e in es):
            vs = [it.to_int(it.force(e.value)) for e in es]
            if not vs:
                raise PyRaise(("ValueError", f"{name}() arg is an empty sequence"))
            if all(isinstance(v, int) for v in vs):
                return (min if name == "min" else max)(vs)
            acc = lift(vs[0])
            for v in vs[1:]:
                v = lift(v)
                acc = z3.If(v < acc, v, acc) if name == "min" else z3.If(v > acc, v, acc)
            return z3.simplify(acc)
        ne = it.exists_entries(es)
        if not (ne is True or it.decide(ne)):
            raise PyRaise(("ValueError", f"{name}() arg is an empty sequence"))
        return it.agg(name, [map_entry(e, lambda v: it.to_int(v)) for e in es], z3.IntSort())

    return f


def b_sorted(it, args, kw):
    v = it.force(args[0])
    es = list(it.entries_of(v))
    if all(isinstance(e, One) and not engine_val(e.value) for e in es) and not any(engine_val(x) for x in kw.values()):
        return EList([One(x) for x in sorted([e.value for e in es], **kw)], "list", it.cur.depth)
    if any(isinstance(e, Many) for e in es) and len(es) == 1:
        return EList([reordered(es[0], f"sorted{sorted(kw)}")], "list", it.cur.depth)
    raise Unsupported("sorting symbolic values")


def b_reversed(it, args, kw):
    v = args[0]
    es = list(it.entries_of(it.force(v)))
    return View([reordered(e, "rev") for e in es][::-1])


def b_map(it, args, kw):
    f = args[0]
    if len(args) > 2:
        return View([One(it.call(f, list(x.value), {})) for x in b_zip(it, args[1:], {}).entries])
    src = list(it.entries_of(it.force(args[1])))
    v = View(_map_entries(it, f, src))
    if len(src) == 1 and isinstance(src[0], Many) and len(src[0].binders) == 1 and src[0].binders[0].kind == "range" and len(src[0].guard) == 2:
        v.mapped = True  # one value per number of the range
    return v


def _map_entries(it, f, es):
    out = []
    fr = Frame(it, Env(None, it.cur.depth, "<map>"), {})
    for e in es:
        if isinstance(e, One):
            out.append(One(it.call(f, [e.value], {})))
        else:
            m = it.freshen(e)
            out += fr.in_region(lambda m=m: [One(it.call(f, [m.value], {}))], m.binders, m.guard, fr.env)
    return out


def b_filter(it, args, kw):
    f = args[0]
    out = []
    fr = Frame(it, Env(None, it.cur.depth, "<filter>"), {})
    for e in it.entries_of(it.force(args[1])):
        if isinstance(e, One):
            t = it.truth(it.call(f, [e.value], {}) if f is not None else e.value)
            if t is True:
                out.append(e)
            elif t is not False:
                out.append(Many([], [t], e.value))
        else:
            m = it.freshen(e)

            def run(m=m):
                t = it.truth(it.call(f, [m.value], {}) if f is not None else m.value)
                if t is False:
                    return []
                if t is not True:
                    it.cur.pc.append(z3.simplify(t))
                return [One(m.value)]

            out += fr.in_region(run, m.binders, m.guard, fr.env)
    return View(out)


def b_divmod(it, args, kw):
    return (it.binop(ast.FloorDiv(), args[0], args[1]), it.binop(ast.Mod(), args[0], args[1]))


def b_noop(it, args, kw):
    return None


def b_product(it, args, kw):
    rep = kw.get("repeat", 1)
    ess = [it.entries_of(it.force(a)) for a in args] * rep
    acc = [One(())]
    for es in ess:
        nxt = []
        for a in acc:
            for e in es:
                if isinstance(a, One) and isinstance(e, One):
                    nxt.append(One(a.value + (e.value,)))
                else:
                    m = it.freshen(e) if isinstance(e, Many) else e
                    bs = (a.binders if isinstance(a, Many) else []) + (m.binders if isinstance(m, Many) else [])
                    gs = (a.guard if isinstance(a, Many) else []) + (m.guard if isinstance(m, Many) else [])
                    nxt.append(Many(bs, gs, a.value + (m.value,)))
        acc = nxt
    return View(acc)


def b_chain(it, args, kw):
    out = []
    for a in args:
        out += list(it.entries_of(it.force(a)))
    return View(out)


def b_getattr(it, args, kw):
    if isinstance(args[1], str):
        try:
            return it.getattr(args[0], args[1])
        except PyRaise:
            if len(args) > 2:
                return args[2]
            raise
    raise Unsupported("getattr")


def b_next(it, args, kw):
    es = it.entries_of(it.force(args[0]))
    if es and isinstance(es[0], One):
        return es[0].value
    if not es and len(args) > 1:
        return args[1]
    raise Unsupported("next of a symbolic collection")


def b_type(it, args, kw):
    v = it.force(args[0])
    if is_val_e(v):
        return int if it.decide(Val.is_VInt(v)) else str
    if is_int_e(v):
        return int
    if is_bool_e(v):
        return bool
    if is_str_e(v) or isinstance(v, Rope):
        return str
    if isinstance(v, EList):
        return {"list": list, "tuple": tuple, "set": set}[v.kind]
    return type(v)


def b_reduce(it, args, kw):
    f, es = args[0], it.entries_of(it.force(args[1]))
    if not all(isinstance(e, One) for e in es):
        raise Unsupported("reduce over a symbolic collection")
    vs = [e.value for e in es]
    acc = args[2] if len(args) > 2 else vs.pop(0)
    for v in vs:
        acc = it.call(f, [acc, v], {})
    return acc


import functools

BUILTIN = {
    isinstance: b_isinstance, len: b_len, range: b_range, int: b_int, str: b_str, bool: b_bool, abs: b_abs,
    list: _coll("list"), tuple: _coll("tuple"), set: _coll("set"), frozenset: _coll("set"), dict: b_dict,
    enumerate: loops.b_enumerate, zip: b_zip, any: b_any, all: b_all, sum: b_sum, min: _minmax("min"), max: _minmax("max"),
    sorted: b_sorted, reversed: b_reversed, map: b_map, filter: b_filter, divmod: b_divmod, print: b_noop, iter: _coll("list"),
    itertools.product: b_product, itertools.chain: b_chain, getattr: b_getattr, collections.deque: _coll("list"),
    logging.debug: b_noop, logging.info: b_noop, logging.warning: b_noop, logging.error: b_noop, next: b_next, type: b_type,
    functools.reduce: b_reduce, itertools.combinations: loops.b_combinations, collections.Counter: loops.b_counter, dict.fromkeys: loops.b_fromkeys,
}
