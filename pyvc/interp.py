"""Symbolic executor for the functions of /repo: paths are enumerated by re-execution, loops over symbolic
collections are summarised by the foreach rule (body verified for one arbitrary element, only append-like effects
may leave it, reading another iteration's effects is refused)."""
import ast
import builtins
import enum
import hashlib
import inspect
import sys
import textwrap
import types

import z3

from .values import *
from .values import _sub

import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class PyRaise(Exception):
    """An exception raised by the verified program."""

    def __init__(self, exc):
        self.exc = exc  # (type name, message value)


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _NeedFork(Exception):
    pass


class TooManyPaths(Unsupported):
    pass


_ast_cache = {}


def module_ast(path):
    import os
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _ast_cache:
        with open(path, encoding="utf-8") as f:
            _ast_cache[k] = ast.parse(f.read(), path)
    return _ast_cache[k]


def func_ast(fn):
    path, line = fn.__code__.co_filename, fn.__code__.co_firstlineno
    for node in ast.walk(module_ast(path)):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            first = min([node.lineno] + [d.lineno for d in getattr(node, "decorator_list", [])])
            if first == line and (isinstance(node, ast.Lambda) or node.name == fn.__name__):
                return node
    raise Unsupported(f"no source for {fn}")


class Closure:
    def __init__(self, node, env, glob, name, depth, defaults=(), kwdefaults=()):
        self.node, self.env, self.glob, self.name, self.depth = node, env, glob, name, depth
        self.defaults, self.kwdefaults = defaults, kwdefaults


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class BoundFn:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Env:
    """Local variables of one function activation."""

    def __init__(self, parent=None, depth=0, fname="?"):
        self.vars, self.parent, self.depth, self.fname = {}, parent, depth, fname
        self.nonlocals = set()

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


class Slot:
    """A variable or attribute that lives outside the loop being summarised."""

    def __init__(self, kind, obj, name):
        self.kind, self.obj, self.name = kind, obj, name
        self.depth = None

    def key(self):
        return (self.kind, id(self.obj), self.name)

    def __eq__(self, o):
        return isinstance(o, Slot) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Effect:
    __slots__ = ("kind", "target", "payload", "guard", "key", "order")

    def __init__(self, kind, target, payload, guard, key):
        self.kind, self.target, self.payload, self.guard, self.key = kind, target, payload, guard, key


class Region:
    def __init__(self, depth, parent, prefix, pc, interp):
        self.depth, self.parent, self.prefix, self.pc = depth, parent, prefix, list(pc)
        self.base = len(self.pc)
        self.taken = ()
        self.forks = []
        self.effects = []
        self.survivors = []  # conditions without which an exception was raised before
        self.nth = {}
        self.reads = set()
        self.locals = {}  # (env id, name) -> value assigned in this iteration
        self.localenv = {}
        self.no_fork = 0

    def add(self, kind, target, payload):
        n = self.nth.get(self.taken, 0)
        self.nth[self.taken] = n + 1
        self.effects.append(Effect(kind, target, payload, self.pc[self.base:], (self.taken, n)))


MAXPATHS = 600


class Interp:
    runs = 0

    def __init__(self, axioms=(), overrides=None, assigned_hook=None, fuel=200000):
        self.axioms = BACKGROUND + list(axioms)
        self.counter = 0
        Interp.runs += 1
        self.serial = Interp.runs  # bound variables of different runs are different
        self.cur = None
        self.overrides = overrides or {}
        self.lengths = {}  # id of a length term -> (term, entries)
        self.objdepth = {}  # id(native obj) -> depth, objects created by verified code
        self.keep = []
        self.checks = 0
        self.cache = {}
        self.calls = set()
        self.fuel = fuel
        self.globals_written = []
        self.stubs = {}
        self.natives = {}
        self.file_calls = {}
        self._solver = None
        self.loopvars = []
        self.carried, self.carry_n = {}, 0
        self.polydiv = False
        self.splits = {}

    # ---------------------------------------------------------------- logic
    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const(f"{name}!{self.serial}_{self.counter}", sort)

    def feasible(self, conds):
        key = tuple(sorted({c.get_id() for c in conds}))
        if key in self.cache:
            return self.cache[key][0]
        self.checks += 1
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*self.axioms)
        s.add(*conds)
        s.add(*loops.facts(conds))
        r = s.check() != z3.unsat
        self.cache[key] = (r, list(conds))
        return r

    def entails(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return not self.feasible(self.cur.pc)
        return not self.feasible(self.cur.pc + [z3.simplify(z3.Not(cond))])

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        reg = self.cur
        k = len(reg.taken)
        if k < len(reg.prefix):
            b, forced = reg.prefix[k]
        else:
            neg = z3.simplify(z3.Not(cond))
            t = self.feasible(reg.pc + [cond])
            f = self.feasible(reg.pc + [neg]) if t else True
            forced = not (t and f)
            b = t
            if not forced:
                if reg.no_fork:
                    raise _NeedFork()
                reg.forks.append(reg.taken + ((False, False),))
                if len(reg.taken) > 60:
                    raise TooManyPaths("path too deep")
        reg.taken += ((b, forced),)
        if not forced:
            reg.pc.append(cond if b else z3.simplify(z3.Not(cond)))
        return b

    def survived(self, cond):
        """From here on the condition holds: otherwise an exception was raised."""
        self.cur.pc.append(cond)
        self.cur.survivors.append(cond)

    # ---------------------------------------------------------------- exploration
    def explore(self, body, binders=(), guard=()):
        """Run body on every path of a new region; returns list of (local pc, kind, value); effects are lifted."""
        outer = self.cur
        depth = outer.depth + 1 if outer else 0
        base_pc = (outer.pc if outer else []) + list(guard)
        if guard and not self.feasible(base_pc):
            return [], []
        base_counter = self.counter
        maxc = base_counter
        work, effects, outs, n = [()], {}, [], 0
        localw = {}
        while work:
            prefix = work.pop()
            n += 1
            if n > MAXPATHS:
                raise TooManyPaths("too many paths")
            reg = Region(depth, outer, prefix, base_pc, self)
            reg.binders = list(binders)
            self.cur, self.counter = reg, base_counter
            kind, value = "normal", None
            try:
                try:
                    value = body()
                except PyRaise as e:
                    kind, value = "raise", e.exc
                    if depth > 0:
                        reg.add("raise", None, e.exc)
                except _Return as e:
                    kind, value = "return", e.value
                except _Continue:
                    kind = "continue"
                except _Break:
                    kind = "break"
            finally:
                self.cur = outer
            maxc = max(maxc, self.counter)
            for e in reg.effects:
                if e.key is not None:
                    effects.setdefault(e.key, e)
            outs.append((reg.pc[reg.base:], kind, value, reg))
            work.extend(reg.forks)
        self.counter = maxc
        return outs, [effects[k] for k in sorted(effects, key=lambda k: ([not b for b, _ in k[0]], k[1]))]

    def lift_effects(self, effects, binders, guard):
        for e in effects:
            m = Many(binders, list(guard) + list(e.guard), e.payload)
            if not m.binders and not m.guard:
                m = m.value if e.kind in ("accum", "raise") else One(m.value)
            self.apply(e.kind, e.target, m)

    def depth_of(self, obj):
        if isinstance(obj, (EList, EDict)):
            return obj.depth
        if isinstance(obj, Slot):
            if obj.kind == "var":
                return obj.depth if obj.depth is not None else obj.obj.depth
            return self.objdepth.get(id(obj.obj), -1)
        return self.objdepth.get(id(obj), -1)

    def apply(self, kind, target, m):
        """Apply an effect (payload possibly Many) to a target, or pass it further out."""
        d = self.cur.depth
        if kind == "raise":
            if d == 0:
                if isinstance(m, Many):
                    self.cur.effects.append(Effect("raise", None, m, list(self.cur.pc), None))
                    return
                raise PyRaise(m)
            self.cur.add("raise", None, m)
            return
        td = self.depth_of(target)
        if td < 0 and not isinstance(target, Slot):
            raise Unsupported(f"mutation of global state: {kind}")
        if td < d:
            self.cur.add(kind, target, m.value if isinstance(m, One) else m)
            return
        if kind == "append":
            target.entries.append(m if isinstance(m, (Many, One)) else One(m))
        elif kind == "setitem":
            target.entries.append(m if isinstance(m, (Many, One)) else One(m))
        elif kind == "accum":
            self.slot_accum(target, m)
        elif kind == "sdictset":
            target.writes = target.writes + [m if isinstance(m, (Many, One)) else One(m)]
        elif kind == "flag":
            self.slot_flag(target, m)
        elif kind == "poison":
            self.set_slot(target, Poison("assigned in a loop"))
        else:
            raise Unsupported(kind)

    def get_slot(self, s):
        return s.obj.vars[s.name] if s.kind == "var" else getattr(s.obj, s.name)

    def set_slot(self, s, v):
        if s.kind == "var":
            s.obj.vars[s.name] = v
        else:
            object.__setattr__(s.obj, s.name, v)

    def slot_accum(self, slot, m):
        old = self.get_slot(slot)
        m = m.value if isinstance(m, One) else m
        add = m.value if isinstance(m, Many) else m
        if isinstance(old, (str, Rope)):
            self.set_slot(slot, Rope([old, m]) if isinstance(m, Many) else rope(old, m))
        elif isinstance(old, int) or is_int_e(old):
            if isinstance(m, Many):
                self.set_slot(slot, lift(old) + self.agg("sum", [m], z3.IntSort()))
            else:
                self.set_slot(slot, self.binop(ast.Add(), old, m))
        else:
            raise Unsupported("accumulator of this type")

    def slot_flag(self, slot, m):
        old = self.get_slot(slot)
        if not isinstance(m, Many):
            self.set_slot(slot, m.value if isinstance(m, One) else m)
            return
        v = m.value
        c = exists(m.binders, m.guard)
        if isinstance(v, bool) and (isinstance(old, bool) or is_bool_e(old)):
            self.set_slot(slot, z3.simplify(z3.If(c, z3.BoolVal(v), lift(old))))
        elif isinstance(v, int) and (isinstance(old, int) or is_int_e(old)):
            self.set_slot(slot, z3.simplify(z3.If(c, z3.IntVal(v), lift(old))))
        else:
            self.set_slot(slot, Poison("conditional assignment in a loop"))

    # ---------------------------------------------------------------- aggregates over entries
    def agg(self, what, entries, ret):
        from .canon import canon_entries
        if what in ("len", "count", "sum"):
            parts = [loops.size(self, e, what) for e in entries]
            if all(p is not None for p in parts):
                return z3.simplify(sum(parts, z3.IntVal(0)))
        text, free = canon_entries(entries)
        if any(isinstance(e, Many) and any("set" in b.order or "keys" in b.order for b in e.binders) for e in entries):
            what = {"len": "lenset", "sum": "sumset", "count": "countset"}.get(what, what)  # every value counts once
        import hashlib
        name = f"{what}#{hashlib.md5(text.encode()).hexdigest()[:12]}"
        self.stubs[name] = (what, entries, text)
        t = uf(name, free, ret)
        if what in ("len", "lenset"):
            self.lengths[t.get_id()] = (t, list(entries))
        if what in ("len", "lenset", "count") or what == "sum" and all(type(e.value) is int and e.value > 0 for e in entries):
            x = self.exists_entries(entries)
            if z3.is_expr(x) and not free:
                loops.SIZES[t.get_id()] = t, x
        return t

    def by_length(self, t, a, b):
        """A comparison of a length that only asks whether there is an element."""
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        if isinstance(a, int):
            a, b, t = b, a, flip.get(t, t)
        kind = {(ast.Eq, 0): False, (ast.NotEq, 0): True, (ast.Gt, 0): True, (ast.GtE, 1): True, (ast.Lt, 1): False, (ast.LtE, 0): False}.get((t, b) if isinstance(b, int) and not isinstance(b, bool) else None)
        if kind is None or not z3.is_expr(a) or a.get_id() not in self.lengths:
            return None
        x = self.exists_entries(self.lengths[a.get_id()][1])
        return x if kind else (not x) if isinstance(x, bool) else z3.Not(x)

    def note_read(self, v, write=False):
        """Record that an outer container is read inside the current regions."""
        if write:
            return
        if isinstance(v, (EList, EDict, SDict)):
            d = self.depth_of(v) if not isinstance(v, SDict) else 0
            reg = self.cur
            while reg is not None and reg.depth > d:
                reg.reads.add(id(v))
                reg = reg.parent

    # ---------------------------------------------------------------- iteration
    def entries_of(self, v):
        """The elements of an iterable as a list of One / Many."""
        if isinstance(v, (list, tuple, set, frozenset, range)) or isinstance(v, types.GeneratorType):
            return [One(x) for x in v]
        if isinstance(v, str):
            return [One(x) for x in v]
        if isinstance(v, dict):
            return [One(x) for x in v]
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return [One(x) for x in v]
        if isinstance(v, EList):
            if v.kind == "set" and any(isinstance(e, Many) for e in v.entries):
                return [reordered(e, "set") for e in v.entries]
            return v.entries
        if isinstance(v, EDict) and getattr(v, "repeats", False):
            return [reordered(map_entry(e, lambda kv: kv[0]), "keys") for e in v.entries]
        if isinstance(v, EDict):
            return [map_entry(e, lambda kv: kv[0]) for e in self.dict_entries(v)]
        if isinstance(v, View):
            return v.entries
        if isinstance(v, SRange):
            x = self.fresh("i", z3.IntSort())
            lo, hi, st = lift(v.lo), lift(v.hi), v.step
            if st == 1:
                g = [lo <= x, x < hi]
                b = Binder([x], "range", "range", [lo, hi])
            elif st == -1:
                g = [x <= lo, x > hi]
                b = Binder([x], "range", "range", [hi + 1, lo + 1], "rev")
            else:
                raise Unsupported("range step")
            return [Many([b], g, x)]
        if isinstance(v, SDict):
            return [map_entry(e, lambda kv: kv[0]) for e in self.sdict_items(v)]
        if isinstance(v, Areas):
            return [map_entry(e, lambda kv: kv[0]) for e in self.areas_items(v)]
        if isinstance(v, Cells):
            r, c = self.fresh("r", z3.IntSort()), self.fresh("c", z3.IntSort())
            b = Binder([r, c], "cells", v.areas.key_, [*v.areas.args, v.idx])
            return [Many([b], [v.contains(r, c)], (r, c))]
        if isinstance(v, SSplit):
            if v.written:
                raise Unsupported("iteration over changed parts")
            i = self.fresh("k", z3.IntSort())
            n = v.length()
            for k in (2, 1, 3):
                if self.cur.pc and self.entails(n == k):
                    return [One(v.item(j)) for j in range(k)]
            return [Many([Binder([i], "range", "range", [z3.IntVal(0), n])], [0 <= i, i < n], v.item(i))]
        if is_val_e(v):
            if not self.decide(Val.is_VStr(v)):
                raise PyRaise(("TypeError", "'int' object is not iterable"))
            v = z3.simplify(Val.sval(v))
        if is_str_e(v):
            i = self.fresh("k", z3.IntSort())
            n = uf("strlen", [v], z3.IntSort())
            return [Many([Binder([i], "range", "range", [z3.IntVal(0), n])], [0 <= i, i < n],
                         uf("charat", [v, i], StrSort))]
        if isinstance(v, JList):
            i = self.fresh("k", z3.IntSort())
            n = uf("json_len", [v.term], z3.IntSort())
            return [Many([Binder([i], "range", "range", [z3.IntVal(0), n])], [0 <= i, i < n], uf("json_item", [v.term, i], z3.IntSort()))]
        raise Unsupported(f"iteration over {type(v).__name__}")

    def sdict_copy(self, d):
        self.note_read(d)
        c = SDict(d.name, d.vsort)
        c.writes = list(getattr(d, "writes", []))
        self.objdepth[id(c)] = self.cur.depth
        self.keep.append(c)
        return c

    def settle_map(self, d):
        """A map with constant entries added: henceforth an arbitrary map named by the base map and the added keys (equal
        additions give equal maps; nothing else is known of it)."""
        ws = getattr(d, "writes", None)
        if not ws:
            return d
        if self.cur.depth or type(d) is not SDict:
            raise Unsupported("a written map inside a loop")
        texts = set()
        for w in ws:
            if w_value(w) is not w_value(ws[0]) or not isinstance(w_value(w), (bool, str)):
                raise Unsupported("a map with various entries added")
            t, free = canon.canon_entries([self.needed(w)])
            if free:
                raise Unsupported("a map with entries added that depend on other terms")
            texts.add(t)
        n = SDict(f"{d.name}+{hashlib.sha256('&'.join(sorted(texts)).encode()).hexdigest()[:16]}", d.vsort)
        d.name, d.domf, d.valf, d.writes = n.name, n.domf, n.valf, []
        return d

    def needed(self, w):
        """The entry without conditions that hold for every element (else an exception was raised)."""
        if not isinstance(w, Many) or not w.guard:
            return w
        facts = []
        src = [(b.kind, b.name, len(b.vars)) for b in w.binders]
        vs = [v for b in w.binders for v in b.vars]
        for e in self.cur.effects:
            m = e.payload
            if e.kind == "raise" and isinstance(m, Many) and [(b.kind, b.name, len(b.vars)) for b in m.binders] == src:
                sub = list(zip([v for b in m.binders for v in b.vars], vs))
                facts.append(z3.Not(z3.And([z3.substitute(g, *sub) for g in m.guard] or [z3.BoolVal(True)])))
        rest = list(w.guard)
        for g in list(w.guard):
            others = [x for x in rest if x is not g]
            if not self.feasible(self.cur.pc + facts + others + [z3.Not(g)]):
                rest = others
        return Many(w.binders, rest, w.value)

    def sdict_items(self, d):
        if isinstance(d, JMap) and d.build is None:  # an empty object that was written
            return list(getattr(d, "writes", []))
        if getattr(d, "writes", None):
            raise Unsupported("iteration over a written symbolic map")
        if isinstance(d, JMap):
            k = self.fresh("key", StrSort)
            return [Many([Binder([k], "dict", d.name)], [d.domf(k), *d.facts(k)], (k, d.valf(k)))]
        r, c = self.fresh("r", z3.IntSort()), self.fresh("c", z3.IntSort())
        dd, p = self.fresh("d", DirSort), self.fresh("pos", StrSort)
        more = d.itemfacts((r, c, dd, p), d.valf(r, c, dd, p)) if hasattr(d, "itemfacts") else []
        return [Many([Binder([r, c, dd, p], "dict", d.name)], [d.domf(r, c, dd, p), *more],
                     (Point(r, c, dd, p), d.valf(r, c, dd, p)))]

    def areas_items(self, a):
        i = self.fresh("a", z3.IntSort())
        n = uf(f"nareas_{a.key_}", list(a.args), z3.IntSort())
        b = Binder([i], "areas", a.key_, a.args)
        cells = Cells(a, i)
        if a.has_clues:
            src = SOpt(a.f("hasclue", i, z3.BoolSort()),
                       (a.f("cluer", i, z3.IntSort()), a.f("cluec", i, z3.IntSort())))
        else:
            src = None
        return [Many([b], [0 <= i, i < n], (cells, src))]

    def dict_entries(self, d):
        """Entries of an EDict with overwritten concrete keys resolved."""
        out = []
        for e in d.entries:
            if isinstance(e, One):
                for j, o in enumerate(out):
                    if isinstance(o, One) and self.same(o.value[0], e.value[0]):
                        out[j] = One((o.value[0], e.value[1]))
                        break
                else:
                    out.append(e)
            else:
                out.append(e)
        return out

    def same(self, a, b):
        r = self.eq(a, b)
        return r is True or (is_sym(r) and z3.is_true(z3.simplify(r)))

    def dict_many_ok(self, d):
        """A dict filled under symbolic keys must have keys that determine the binders (no silent overwriting)."""
        manys = [e for e in d.entries if isinstance(e, Many)]
        if not manys:
            return True
        if len(d.entries) > 1:
            return False
        m = manys[0]
        names = set()
        for x in flat(m.value[0]):
            if is_sym(x) and z3.is_const(x):
                names.add(str(x))
        s = None
        for b in m.binders:
            for v in b.vars:
                if str(v) in names:
                    continue
                if s is None:
                    s = m.guard
                # variable fixed by the guard?
                v2 = z3.FreshConst(v.sort(), "w")
                g2 = [z3.substitute(g, (v, v2)) for g in m.guard]
                if self.feasible(list(self.cur.pc) + list(m.guard) + g2 + [v != v2]):
                    return False
        return True

    def for_each(self, v, body, env, names):
        """Iterate: body(value) is called per element; `names` are the variables assigned in the loop."""
        for e in list(self.entries_of(v)):
            if isinstance(e, One):
                try:
                    body(e.value)
                except _Continue:
                    continue
            else:
                self.foreach_many(e, body, env, names)

    def foreach_many(self, m, body, env, names, defer=None):
        src, m = m, self.freshen(m)
        saved = dict(env.vars)
        lo_names = [n for n in names]
        stale = {n for n in names for x in self.loopvars if x[0] is env and n in x[1] and n not in x[2]}

        def run(relayed={}):
            env.vars = {**saved, **relayed}
            self.loopvars.append(loops.LoopVar((env, set(lo_names), set(relayed), self.cur.depth), True))
            try:
                return body(m.value)
            finally:
                env.vars_after = dict(env.vars)
                self.loopvars.pop()
                self.cur.localenv = dict(env.vars)

        after = {}
        carried, counter = dict(self.carried), self.counter
        try:
            outs, effs = self.explore(run, m.binders, m.guard)
        except Unsupported as e:
            self.carried = carried
            env.vars = saved
            names_ = loops.relayable(self, m, env, lo_names)
            for vs in [[x] for x in names_] + ([names_] if len(names_) > 1 else []):
                self.counter = counter
                consts = {x: self.fresh("before", lift(saved[x]).sort()) for x in vs}
                try:
                    outs, effs = self.explore(lambda: run(consts), m.binders, m.guard)
                    env.vars = saved
                    sub, after = loops.relay(self, m, env, consts, outs)
                except Unsupported:
                    self.carried = dict(carried)
                    env.vars = saved
                    continue
                outs = [([z3.substitute(g, *sub) for g in o[0]], *o[1:]) for o in outs]
                effs = [type(f)(f.kind, f.target, subst(f.payload, sub), [z3.substitute(g, *sub) for g in f.guard], f.key) for f in effs]
                break
            else:
                raise e
        finally:
            env.vars = saved
        rets = [o for o in outs if o[1] == "return"]
        brks = [o for o in outs if o[1] == "break"]
        if rets or brks:
            vals = [o[2] for o in rets]
            if brks or any(e.kind != "raise" for e in effs) and rets:
                raise Unsupported("break/return inside a symbolic loop with other effects")
            if not all(not is_sym(v) and (v is None or isinstance(v, (bool, int, str))) for v in vals) or \
                    any(v != vals[0] for v in vals):
                raise Unsupported("return of an element from a symbolic loop")
        # variables assigned by the body
        for n in lo_names:
            if n in after:
                continue
            assigned = [(o[0], o[3].localenv[n]) for o in outs
                        if o[1] in ("normal", "continue") and n in o[3].localenv
                        and o[3].localenv[n] is not saved.get(n, o)]
            assigned = [a for a in assigned if not _is_accref(a[1])]
            if not assigned:
                continue
            if any(c.env is env and c.name == n for c in self.carried.values()):
                raise Unsupported(f"loop-carried variable {n}")
            if n in stale:
                env.vars[n] = loops.Last(m, assigned, loops.CARRIED)
            elif n in saved and all(isinstance(v, (bool, int)) for _, v in assigned) and \
                    all(type(v) is type(assigned[0][1]) and v == assigned[0][1] for _, v in assigned):
                for pc, v in assigned:
                    mm = Many(m.binders, list(m.guard) + list(pc), v)
                    self.apply_local("flag", env, n, mm)
            else:
                env.vars[n] = loops.Last(m, assigned, saved.get(n), len(assigned) == sum(o[1] in ("normal", "continue") for o in outs))
        from .frame import check_carried
        if defer is not None:
            defer.append((src, m, effs, outs))
        else:
            check_carried(self, outs, effs)
            [(_, _, effs)] = loops.resolve(self, env, names, [(src, m, effs)])
            self.lift_effects(effs, m.binders, m.guard)
        for n, (old, last) in after.items():
            env.vars[n] = last if self.decide(exists(m.binders, m.guard)) else old
        if rets:
            c = z3.Or([exists(m.binders, list(m.guard) + list(o[0])) for o in rets])
            if self.decide(c):
                raise _Return(rets[0][2])

    def apply_local(self, kind, env, name, m):
        slot = Slot("var", env, name)
        if kind == "poison":
            env.vars[name] = Poison("assigned inside a symbolic loop")
            return
        if env.depth < self.cur.depth and any(f[0] is env and name in f[1] for f in self.loopvars):
            self.slot_flag(slot, m)
            return
        self.slot_flag(slot, m)

    def freshen(self, m):
        sub = []
        for b in m.binders:
            for v in b.vars:
                sub.append((v, self.fresh(str(v).split("!")[0], v.sort())))
        return m.subst(sub)


    # ---------------------------------------------------------------- truth, equality, arithmetic
    def truth(self, v):
        """z3 Bool or native bool for truthiness."""
        if is_bool_e(v):
            return v
        if is_int_e(v):
            x = self.by_length(ast.NotEq, v, 0)
            return v != 0 if x is None else x
        if is_str_e(v):
            return v != z3.StringVal("")
        if is_val_e(v):
            return z3.Or(z3.And(Val.is_VInt(v), Val.ival(v) != 0), z3.And(Val.is_VStr(v), Val.sval(v) != z3.StringVal("")))
        if is_dir_e(v) or is_col_e(v):
            return True
        if isinstance(v, SOpt):
            t = self.truth(v.value)
            return z3.And(v.cond, lift(t))
        if isinstance(v, Rope):
            return self.nonempty_rope(v)
        if isinstance(v, (EList,)):
            return self.exists_entries(v.entries)
        if isinstance(v, EDict):
            return self.exists_entries(v.entries)
        if isinstance(v, (SDict,)):
            return self.exists_entries(self.sdict_items(v))
        if isinstance(v, Cells):
            return True
        if isinstance(v, Areas):
            return uf(f"nareas_{v.key_}", list(v.args), z3.IntSort()) > 0
        if isinstance(v, (Closure, Bound, BoundFn, JDoc, JList)):
            return True
        if isinstance(v, SUnion):
            return self.truth(self.force(v))
        if isinstance(v, Poison):
            raise Unsupported(f"poisoned value: {v.why}")
        if isinstance(v, (View, SSplit, SRange, SParam)):
            raise Unsupported(f"truth of {type(v).__name__}")
        return bool(v)

    def exists_entries(self, entries):
        if any(isinstance(e, One) for e in entries):
            return True
        if not entries:
            return False
        return z3.Or([exists(e.binders, e.guard) for e in entries])

    def nonempty_rope(self, v):
        conds = []
        for p in v.pieces:
            if isinstance(p, str):
                return True
            if isinstance(p, Hole):
                if is_int_e(p.term):
                    return True
                conds.append(str_term(p.term) != z3.StringVal(""))
            elif isinstance(p, Many):
                t = self.truth(p.value) if not isinstance(p.value, str) else p.value != ""
                conds.append(exists(p.binders, list(p.guard) + ([] if t is True else [lift(t)])))
            elif isinstance(p, Join):
                if len(p.entries) > 1 and p.sep and any(isinstance(e, One) for e in p.entries):
                    return True
                for e in p.entries:
                    t = e.value != "" if isinstance(e.value, str) else self.truth(e.value)
                    if isinstance(e, One):
                        if t is True:
                            return True
                        conds.append(lift(t))
                    else:
                        conds.append(exists(e.binders, list(e.guard) + ([] if t is True else [lift(t)])))
            else:
                raise Unsupported("truth of an accumulator")
        return z3.Or(conds) if conds else False

    def eq(self, a, b):
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            if isinstance(b, SOpt):
                a, b = b, a
            if b is None:
                return z3.Not(a.cond)
            if isinstance(b, SOpt):
                e = self.eq(a.value, b.value)
                return z3.Or(z3.And(z3.Not(a.cond), z3.Not(b.cond)), z3.And(a.cond, b.cond, lift(e)))
            return z3.And(a.cond, lift(self.eq(a.value, b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [self.eq(x, y) for x, y in zip(a, b)]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return z3.And([lift(c) for c in cs]) if cs else True
        if isinstance(a, Rope) or isinstance(b, Rope):
            if isinstance(a, (str, Rope)) and isinstance(b, (str, Rope)):
                if a == "" or b == "":
                    t = self.truth(b if a == "" else a)
                    return (not t) if isinstance(t, bool) else z3.Not(t)
                if isinstance(a, Rope) and isinstance(b, str) and not a_possible(a, b):
                    return False
                if isinstance(b, Rope) and isinstance(a, str) and not a_possible(b, a):
                    return False
                ta, tb = lift(a), lift(b)
                if ta is None or tb is None:
                    raise Unsupported("equality of symbolic text")
                return ta == tb
            if not (is_sym(a) or is_sym(b)):
                return False
        if is_sym(a) or is_sym(b):
            if is_val_e(a) or is_val_e(b):
                x, y = to_val(a), to_val(b)
                if x is None or y is None:
                    return False
                if is_val_e(a) and is_val_e(b):
                    return x == y
                # compare against one constructor
                v, o = (a, b) if is_val_e(a) else (b, a)
                o = lift(o)
                if is_bool_e(o):
                    o = z3.If(o, z3.IntVal(1), z3.IntVal(0))
                if is_int_e(o):
                    return z3.And(Val.is_VInt(v), Val.ival(v) == o)
                return z3.And(Val.is_VStr(v), Val.sval(v) == o)
            x, y = lift(a), lift(b)
            if x is None or y is None:
                if isinstance(a, (EList, EDict, SDict)) or isinstance(b, (EList, EDict, SDict)):
                    raise Unsupported("equality of collections")
                return False
            if x.sort() != y.sort():
                if is_bool_e(x) and is_int_e(y):
                    x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
                elif is_int_e(x) and is_bool_e(y):
                    y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
                else:
                    return False
            return x == y
        if isinstance(a, EList) and isinstance(b, EList):
            if a.concrete() and b.concrete():
                return self.eq(tuple(e.value for e in a.entries), tuple(e.value for e in b.entries))
            raise Unsupported("equality of symbolic lists")
        if isinstance(a, EList) and isinstance(b, (list, tuple)) and a.concrete():
            return self.eq(tuple(e.value for e in a.entries), tuple(b))
        if isinstance(b, EList) and isinstance(a, (list, tuple)):
            return self.eq(b, a)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("poisoned value")
        if isinstance(a, (Cells, Areas, SDict, View)) or isinstance(b, (Cells, Areas, SDict, View)):
            return a is b
        return a == b

    def to_int(self, v):
        """Operand of arithmetic: native int or z3 Int; Val operands must be numbers (else TypeError)."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int) or is_int_e(v):
            return v
        if is_bool_e(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_val_e(v):
            if self.decide(Val.is_VInt(v)):
                return z3.simplify(Val.ival(v))
            raise PyRaise(("TypeError", "unsupported operand"))
        return None

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        strish = lambda x: isinstance(x, (str, Rope)) or is_str_e(x)
        if isinstance(op, ast.Add):
            if strish(a) and strish(b):
                return rope(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (EList, list)) and isinstance(b, (EList, list)):
                return EList(list(self.entries_of(a)) + list(self.entries_of(b)), "list", self.cur.depth)
            if isinstance(a, (EList, tuple)) and isinstance(b, (EList, tuple)):
                return EList(list(self.entries_of(a)) + list(self.entries_of(b)), "tuple", self.cur.depth)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if strish(x):
                    if isinstance(y, int):
                        if isinstance(x, str):
                            return x * int(y)
                        return rope(*([x] * int(y)))
                    if is_bool_e(y):
                        return x if self.decide(y) else ""
                    if is_val_e(y) or is_int_e(y):
                        raise Unsupported("string repetition by a symbolic count")
        if isinstance(op, ast.Mod) and strish(a):
            raise Unsupported("% formatting")
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and not is_sym(a) and not is_sym(b) and not isinstance(a, EList) and not isinstance(b, EList):
            return {ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b}[type(op)]()
        if is_col_e(a) or is_col_e(b):
            return self.color_op(op, a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and (is_bool_e(a) or is_bool_e(b)):
            x, y = lift(a), lift(b)
            if is_bool_e(x) and is_bool_e(y):
                return z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Or(x, y)
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)) and (isinstance(a, (EList, set, frozenset)) and isinstance(b, (EList, set, frozenset))):
            return self.setop(op, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return concrete_binop(op, a, b)
        x, y = self.to_int(a), self.to_int(b)
        if x is None or y is None:
            if strish(a) or strish(b) or a is None or b is None:
                raise PyRaise(("TypeError", "unsupported operand"))
            raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__},{type(b).__name__}")
        if isinstance(x, int) and isinstance(y, int):
            return concrete_binop(op, x, y)
        t = type(op)
        ex, ey = lift(x), lift(y)
        if t is ast.Add:
            return z3.simplify(ex + ey)
        if t is ast.Sub:
            return z3.simplify(ex - ey)
        if t is ast.Mult:
            return z3.simplify(ex * ey)
        if t in (ast.FloorDiv, ast.Mod):
            if not self.decide(ey != 0):
                raise PyRaise(("ZeroDivisionError", "division by zero"))
            if self.entails(ey > 0):
                if self.polydiv and not z3.is_int_value(ey):
                    qr = self.divide(ex, ey)
                    if qr is not None:
                        return qr[0] if t is ast.FloorDiv else qr[1]
                return z3.simplify(ex / ey if t is ast.FloorDiv else ex % ey)
            if t is ast.FloorDiv:
                return z3.simplify(z3.If(ey > 0, ex / ey, (-ex) / (-ey)))
            return z3.simplify(z3.If(ey > 0, ex % ey, -((-ex) % (-ey))))
        if t is ast.RShift and isinstance(y, int) and y >= 0:
            return z3.simplify(ex / z3.IntVal(2 ** y))
        if t in (ast.RShift, ast.BitAnd, ast.LShift, ast.BitOr, ast.Pow, ast.Div, ast.BitXor):
            return uf(t.__name__.lower(), [ex, ey], z3.IntSort())
        raise Unsupported(f"operator {t.__name__}")

    def divide(self, x, y):
        """Quotient and remainder read off the polynomial form, if the solver confirms them."""
        from .poly import long_division

        key = (x.get_id(), y.get_id())
        for q, rem in long_division(x, y):
            if self.entails(z3.And(0 <= rem, rem < y)) and self.entails(x == q * y + rem):
                self.keep.append((x, y))
                return z3.simplify(q), z3.simplify(rem)
        return None

    def color_op(self, op, a, b):
        raise Unsupported("colour arithmetic")

    def setop(self, op, a, b):
        if isinstance(op, ast.BitOr):
            return EList(list(self.entries_of(a)) + list(self.entries_of(b)), "set", self.cur.depth)
        ea, out = self.entries_of(a), []
        for e in ea:
            if isinstance(e, One):
                c = self.contains(b, e.value)
                if isinstance(op, ast.Sub):
                    c = (not c) if isinstance(c, bool) else z3.Not(c)
                if c is True:
                    out.append(e)
                elif c is not False:
                    out.append(Many([], [c], e.value))
            else:
                m = self.freshen(e)
                c = self.contains(b, m.value)
                if isinstance(op, ast.Sub):
                    c = (not c) if isinstance(c, bool) else z3.Not(c)
                out.append(Many(m.binders, m.guard + [lift(c)], m.value))
        return EList(out, "set", self.cur.depth)

    def force(self, v):
        """Resolve an optional value that must be present (None operands raise TypeError)."""
        if isinstance(v, SOpt):
            return v.value if self.decide(v.cond) else None
        if isinstance(v, SUnion):
            return v.a if self.decide(v.cond) else v.b
        if isinstance(v, Poison):
            raise Unsupported(f"poisoned value: {v.why}")
        return v

    def compare(self, op, a, b):
        t = type(op)
        x = self.by_length(t, a, b)
        if x is not None:
            return x
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if t in (ast.Is, ast.IsNot):
            r = self.is_(a, b)
            if t is ast.IsNot:
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if t is ast.NotIn:
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        a, b = self.force(a), self.force(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if not any(is_sym(x) for x in a + b):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
            raise Unsupported("tuple ordering")
        if not is_sym(a) and not is_sym(b) and not isinstance(a, (EList, EDict, Rope)) and not isinstance(b, (EList, EDict, Rope)):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[t]()
            except TypeError as e:
                raise PyRaise(("TypeError", str(e)))
        x, y = self.to_int(a), self.to_int(b)
        if x is None or y is None:
            if (x is None) != (y is None) and not isinstance(a, (EList, EDict)) and not isinstance(b, (EList, EDict)):
                raise PyRaise(("TypeError", "'<' not supported"))
            raise Unsupported(f"ordering of {type(a).__name__} and {type(b).__name__}")
        x, y = lift(x), lift(y)
        return z3.simplify({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])

    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if isinstance(x, SOpt):
                return z3.Not(x.cond)
            return x is None
        if isinstance(b, bool) or isinstance(a, bool):
            x, k = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(x, SOpt):
                r = self.is_(x.value, k)
                return z3.And(x.cond, lift(r))
            if is_bool_e(x):
                return x if k else z3.Not(x)
            return x is k
        if is_dir_e(a) or is_dir_e(b) or is_col_e(a) or is_col_e(b):
            return self.eq(a, b)
        return a is b

    def contains(self, coll, x):
        """x in coll."""
        coll = self.force(coll)
        if isinstance(coll, SDict):
            k = coll.key(x)
            c = coll.domf(*k)
            for w in getattr(coll, "writes", ()):
                c = z3.Or(c, member(self, w, x))
            return c
        if isinstance(coll, enum.Flag):
            x = self.force(x)
            if is_col_e(x):
                ms = [COLC[c.name] for c in _flag_members(coll)]
                return z3.Or([x == m for m in ms]) if ms else False
            return x in coll
        if is_val_e(coll):
            if not self.decide(Val.is_VStr(coll)):
                raise PyRaise(("TypeError", "argument of type 'int' is not iterable"))
            coll = z3.simplify(Val.sval(coll))
        if isinstance(coll, (str, Rope)) or is_str_e(coll):
            x = self.force(x)
            if isinstance(coll, str) and isinstance(x, str):
                return x in coll
            if is_val_e(x):
                if not self.decide(Val.is_VStr(x)):
                    raise PyRaise(("TypeError", "requires string"))
                x = Val.sval(x)
            if isinstance(coll, Rope) and isinstance(x, str) and len(x) == 1 and x not in "-0123456789" and \
                    all(isinstance(p, str) or isinstance(p, Hole) and is_int_e(p.term) for p in coll.pieces):
                return any(isinstance(p, str) and x in p for p in coll.pieces)
            a, b = lift(coll), lift(x)
            if a is None or b is None:
                raise Unsupported("substring test")
            return z3.Contains(a, b)
        if isinstance(coll, (list, tuple, set, frozenset, dict, range)):
            if not deep_sym(x):
                try:
                    if not any(deep_sym(y) for y in coll):
                        return x in coll
                except TypeError:
                    pass
            cs = []
            if isinstance(coll, range) and coll.step == 1:
                e = self.force(x)
                if is_val_e(e):
                    return z3.And(Val.is_VInt(e), Val.ival(e) >= coll.start, Val.ival(e) < coll.stop)
                return z3.And(e >= coll.start, e < coll.stop)
            for y in coll:
                c = self.eq(x, y)
                if c is True:
                    return True
                if c is not False:
                    cs.append(c)
            return z3.Or(cs) if cs else False
        if isinstance(coll, SRange):
            e = self.force(x)
            if coll.step not in (1, -1):
                raise Unsupported("membership in stepped range")
            inside = lambda x: z3.And(x >= lift(coll.lo), x < lift(coll.hi)) if coll.step == 1 else z3.And(x <= lift(coll.lo), x > lift(coll.hi))
            if is_val_e(e):
                return z3.And(Val.is_VInt(e), inside(Val.ival(e)))
            if not (isinstance(e, int) or is_int_e(e)):
                return False
            return inside(lift(e))
        if isinstance(coll, Cells):
            if isinstance(x, tuple) and len(x) == 2:
                return coll.contains(lift(x[0]), lift(x[1]))
            return False
        if isinstance(coll, (EList, View)):
            return self.member_entries(coll.entries, x)
        if isinstance(coll, EDict):
            return self.member_entries([map_entry(e, lambda kv: kv[0]) for e in coll.entries], x)
        if isinstance(coll, SSplit):
            return uf("split_has", [coll.s, z3.StringVal(coll.sep), lift(x)], z3.BoolSort())
        if isinstance(coll, SParam):
            return uf("param_has", [z3.StringVal(x)], z3.BoolSort())
        raise Unsupported(f"membership in {type(coll).__name__}")

    def member_entries(self, entries, x):
        cs = []
        for e in entries:
            c = member(self, e, x)
            if c is True:
                return True
            if c is not False:
                cs.append(c)
        return z3.Or(cs) if cs else False

    # ---------------------------------------------------------------- attributes, subscripts
    def getattr(self, obj, name):
        obj = self.force(obj)
        if obj is None:
            raise PyRaise(("AttributeError", f"None has no {name}"))
        if isinstance(obj, SRange):
            return {"start": obj.lo, "stop": obj.hi, "step": obj.step}[name]
        if isinstance(obj, (SDict, EList, EDict, Rope, SSplit, Cells, Areas, View, SParam)) or is_sym(obj):
            if is_dir_e(obj):
                if name == "value":
                    return dir_value(obj)
                raise Unsupported(f"attribute {name} of direction")
            return Bound(obj, name)
        if isinstance(obj, (str, int, tuple, list, dict, set, frozenset, enum.Enum, type, types.ModuleType)):
            if isinstance(obj, tuple) and hasattr(obj, "_fields") and name in obj._fields:
                return getattr(obj, name)
            if isinstance(obj, (enum.Enum, type, types.ModuleType)):
                try:
                    return getattr(obj, name)
                except AttributeError as e:
                    raise PyRaise(("AttributeError", str(e)))
            return Bound(obj, name)
        # native object
        if isinstance(obj, Super):
            for c in type(obj.obj).__mro__[type(obj.obj).__mro__.index(obj.cls) + 1:]:
                if name in c.__dict__:
                    return BoundFn(c.__dict__[name], obj.obj)
            raise Unsupported("super attribute")
        if hasattr(obj, "__dict__") and name in obj.__dict__:
            v = obj.__dict__[name]
            return self.slot_read(Slot("attr", obj, name), v)
        for c in type(obj).__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                if isinstance(v, types.FunctionType):
                    return BoundFn(v, obj)
                if isinstance(v, staticmethod):
                    return v.__func__
                if isinstance(v, classmethod):
                    return BoundFn(v.__func__, c)
                if isinstance(v, property):
                    return self.call(v.fget, [obj], {})
                return v
        try:
            return getattr(obj, name)
        except AttributeError as e:
            raise PyRaise(("AttributeError", str(e)))

    def slot_read(self, slot, v):
        """Reading an outer accumulator inside a loop region yields a placeholder."""
        if self.depth_of(slot) < self.cur.depth and self.cur.depth > 0 and slot.kind == "attr":
            if isinstance(v, (str, Rope)):
                return Rope([AccRef(slot)])
        return v

    def setattr(self, obj, name, value):
        if isinstance(obj, (SDict, EList, EDict)) or is_sym(obj):
            raise Unsupported("attribute assignment on symbolic value")
        slot = Slot("attr", obj, name)
        if isinstance(obj, (type, types.ModuleType)):
            self.globals_written.append((getattr(obj, "__name__", "?"), name))
            raise Unsupported("assignment to a class or module attribute")
        if self.objdepth.get(id(obj), -1) < self.cur.depth:
            if isinstance(value, Rope) and value.pieces and isinstance(value.pieces[0], AccRef) and value.pieces[0].slot == slot:
                rest = Rope(value.pieces[1:]).simple()
                if rest != "" if isinstance(rest, str) else True:
                    self.cur.add("accum", slot, rest)
                return
            old = obj.__dict__.get(name)
            if isinstance(value, (bool, int)) and isinstance(old, (bool, int)):
                self.cur.add("flag", slot, value)
                return
            raise Unsupported(f"loop-carried attribute {name}")
        object.__setattr__(obj, name, value)

    def getitem(self, obj, k):
        obj = self.force(obj)
        if isinstance(k, slice):
            if isinstance(obj, Rope) and k.stop is None and k.step is None and isinstance(k.start, int) and k.start >= 0 and \
                    obj.pieces and isinstance(obj.pieces[0], str) and len(obj.pieces[0]) >= k.start:
                return Rope((obj.pieces[0][k.start:],) + obj.pieces[1:]).simple()
            if isinstance(obj, (str, tuple, list)) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return obj[k]
            if isinstance(obj, EList) and obj.concrete():
                return EList(obj.entries[k], obj.kind, self.cur.depth)
            if is_str_e(obj) or isinstance(obj, Rope):
                t = lift(obj)
                if t is None:
                    raise Unsupported("slice of symbolic text")
                parts = [lift(x) if x is not None else z3.IntVal(-999999) for x in (k.start, k.stop)]
                return uf("slice", [t, *parts], StrSort)
            raise Unsupported("slice of symbolic sequence")
        k = self.force(k)
        if isinstance(obj, JDoc):
            if not isinstance(k, str) or k not in obj.sections:
                raise Unsupported("section of a document")
            return obj.sections[k]
        if isinstance(obj, SDict):
            if not self.decide(self.contains(obj, k)):
                raise PyRaise(("KeyError", k))
            return self.sdict_val(obj, k)
        if isinstance(obj, SParam):
            if not isinstance(k, str):
                raise Unsupported("symbolic parameter name")
            return self.param(obj, k)
        if isinstance(obj, EDict):
            return self.edict_get(obj, k)
        if isinstance(obj, SRange):
            i = self.to_int(k)
            n = z3.If(lift(obj.hi) > lift(obj.lo), lift(obj.hi) - lift(obj.lo), 0) if obj.step == 1 else \
                z3.If(lift(obj.hi) < lift(obj.lo), lift(obj.lo) - lift(obj.hi), 0)
            if obj.step not in (1, -1) or i is None:
                raise Unsupported("subscript of a stepped range")
            if not self.decide(z3.And(-n <= lift(i), lift(i) < n)):
                raise PyRaise(("IndexError", "range object index out of range"))
            j = z3.If(lift(i) >= 0, lift(i), n + lift(i)) if is_int_e(i) else (lift(i) if i >= 0 else n + i)
            return z3.simplify(lift(obj.lo) + obj.step * j)
        if isinstance(obj, SSplit):
            if isinstance(k, int) and k in obj.written:
                return obj.written[k]
            i = lift(k)
            if isinstance(k, int) and k >= 0:
                if k > 0 and not self.decide(obj.length() > k):
                    raise PyRaise(("IndexError", "list index out of range"))
                return obj.item(k)
            if isinstance(k, int) and k < 0:
                if k < -1 and not self.decide(obj.length() >= -k):
                    raise PyRaise(("IndexError", "list index out of range"))
                return obj.item(z3.simplify(obj.length() + k))
            raise Unsupported("symbolic index into split")
        if is_str_e(obj) or isinstance(obj, Rope):
            t = lift(obj)
            i = self.to_int(k)
            n = uf("strlen", [t], z3.IntSort())
            if not self.decide(z3.And(lift(i) < n, lift(i) >= -n)):
                raise PyRaise(("IndexError", "string index out of range"))
            return uf("charat", [t, lift(i)], StrSort)
        if is_val_e(obj):
            if self.decide(Val.is_VStr(obj)):
                return self.getitem(Val.sval(obj), k)
            raise PyRaise(("TypeError", "int is not subscriptable"))
        if isinstance(obj, EList):
            if obj.concrete():
                if isinstance(k, int):
                    try:
                        return obj.entries[k].value
                    except IndexError as e:
                        raise PyRaise(("IndexError", str(e)))
                return self.pick(list(range(len(obj.entries))), [e.value for e in obj.entries], k, "IndexError")
            if obj.kind == "tuple" or obj.kind == "list":
                return self.opaque_item(obj, k)
            raise Unsupported("index into symbolic list")
        if isinstance(obj, Cells):
            raise Unsupported("index into a room")
        if isinstance(obj, dict):
            if hasattr(obj, "_pyvc_get"):
                return obj._pyvc_get(self, k)
            if not deep_sym(k):
                try:
                    return obj[k]
                except (KeyError, TypeError) as e:
                    raise PyRaise((type(e).__name__, str(e)))
            return self.pick(list(obj.keys()), list(obj.values()), k, "KeyError")
        if isinstance(obj, (str, list, tuple)):
            if isinstance(k, int):
                try:
                    return obj[k]
                except IndexError as e:
                    raise PyRaise(("IndexError", str(e)))
            i = self.to_int(k)
            if i is None:
                raise PyRaise(("TypeError", "indices must be integers"))
            return self.pick(list(range(-len(obj), len(obj))), list(obj) * 2, i, "IndexError")
        if isinstance(obj, type) or str(type(obj)).startswith("<class 'typing"):
            return obj
        raise Unsupported(f"subscript of {type(obj).__name__}")

    def opaque_item(self, obj, k):
        """Element number k of a list given by one comprehension (its order is part of its canonical text)."""
        i = self.to_int(k)
        if len(obj.entries) != 1 or i is None or is_int_e(i) and not self.entails(i >= 0) or isinstance(i, int) and i < 0:
            raise Unsupported("index into symbolic list")
        e = obj.entries[0]
        if not is_sym(e.value) and not isinstance(e.value, tuple):
            raise Unsupported("index into symbolic list")
        n = self.agg("len", obj.entries, z3.IntSort())
        if not self.decide(lift(i) < n):
            raise PyRaise(("IndexError", "list index out of range"))
        from .canon import canon_entries
        import hashlib
        text, free = canon_entries(obj.entries)
        h = hashlib.md5(text.encode()).hexdigest()[:12]

        def item(v, path):
            if isinstance(v, tuple):
                xs = [item(x, path + str(j) + ".") for j, x in enumerate(v)]
                return type(v)(*xs) if hasattr(v, "_fields") else tuple(xs)
            e_ = lift(v)
            if e_ is None:
                raise Unsupported("index into symbolic list")
            self.stubs[f"item{path}#{h}"] = ("item", obj.entries, text)
            return uf(f"item{path}#{h}", free + [lift(i)], e_.sort())

        return item(e.value, "")

    def pick(self, keys, vals, k, err):
        """Select by a symbolic key from finitely many concrete keys."""
        cs = [self.eq(k, x) for x in keys]
        same = len(vals) and all(lift(v) is not None and not isinstance(v, (str, Rope)) for v in vals)
        for c, v in zip(cs, vals):
            if c is True:
                return v
            if c is False:
                continue
            if self.decide(c):
                return v
        raise PyRaise((err, k))

    def sdict_val(self, d, k):
        if getattr(d, "writes", None):
            for w in reversed(d.writes):
                c = member(self, map_entry_any(w, lambda kv: kv[0]), k)
                if c is True or (c is not False and self.decide(c)):
                    return w_value(w)
        return d.valf(*d.key(k))

    def sdict_get(self, d, k, default=None):
        c = self.contains(d, k)
        if default is None:
            if isinstance(c, bool):
                return self.sdict_val(d, k) if c else None
            if getattr(d, "writes", None):
                return self.sdict_val(d, k) if self.decide(c) else None
            return SOpt(c, d.valf(*d.key(k)))
        return self.sdict_val(d, k) if self.decide(c) else default

    def param(self, p, k):
        """Parameters: the front end sends what the solver declares; booleans for checkboxes, text otherwise."""
        t = p.types.get(k) if hasattr(p, "types") else None
        if t is None:
            raise PyRaise(("KeyError", k))
        if t == "checkbox":
            return uf(f"param_bool_{k}", [], z3.BoolSort())
        if t == "select":
            opts = p.options[k]
            for o in opts[:-1]:
                if self.decide(uf(f"param_str_{k}", [], StrSort) == z3.StringVal(o)):
                    return o
            return opts[-1]
        return uf(f"param_val_{k}", [], StrSort)

    def edict_get(self, d, k, default="__raise__"):
        if getattr(d, "default_factory", None) is not None and default == "__raise__":
            raise Unsupported("defaultdict")
        for e in reversed(d.entries):
            if isinstance(e, One):
                c = self.eq(e.value[0], k)
                if c is True or (c is not False and self.decide(c)):
                    return e.value[1]
            else:
                m = self.freshen(e)
                sol = one_point(self, m, m.value[0], k)
                if sol is None:
                    raise Unsupported("lookup in a symbolic dict")
                cond, val, exact = sol(m.value[1])
                if self.decide(cond):
                    if not exact:
                        c = self.eq(m.value[0], k)
                        return loops.Last(m, [([] if c is True else [c], m.value[1])], None).value(self, True)
                    return val
        if default == "__raise__":
            raise PyRaise(("KeyError", k))
        return default

    def setitem(self, obj, k, v):
        if isinstance(obj, SSplit) and isinstance(k, int) and k >= 0 and self.cur.depth == 0:
            if not self.decide(obj.length() > k):
                raise PyRaise(("IndexError", "list assignment index out of range"))
            obj.written[k] = v
            return
        if isinstance(obj, SDict):
            if self.objdepth.setdefault(id(obj), 0) >= self.cur.depth:
                obj.writes = getattr(obj, "writes", []) + [One((k, v))]
            else:
                obj.writes = getattr(obj, "writes", [])
                self.cur.add("sdictset", obj, (k, v))
            return
        if isinstance(obj, EDict):
            if obj.depth < self.cur.depth:
                self.cur.add("setitem", obj, (k, v))
            else:
                obj.entries.append(One((k, v)))
            return
        if isinstance(obj, EList) and obj.concrete() and isinstance(k, int) and obj.depth >= self.cur.depth:
            obj.entries[k] = One(v)
            return
        raise Unsupported(f"item assignment on {type(obj).__name__}")

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("out of fuel")
        if isinstance(f, SOpt):
            f = self.force(f)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, BoundFn):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Closure):
            return self.run_closure(f, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kw)
        if f in BUILTIN:
            return BUILTIN[f](self, args, kw)
        if getattr(f, "__name__", None) in self.natives and not isinstance(f, types.FunctionType):
            return self.natives[f.__name__](self, args, kw)
        if isinstance(f, types.FunctionType):
            mod = f.__module__ or ""
            q = f"{mod}.{f.__qualname__}"
            if q in self.overrides:
                r = self.overrides[q](self, args, kw)
                if r is not NotImplemented:
                    return r
            self.calls.add(q)
            path = f.__code__.co_filename
            if path.startswith(REPO + "/") or path.startswith("/verif/specs") or getattr(f, "_pyvc", False):
                if not any(engine_val(a) for a in list(args) + list(kw.values())) and not getattr(f, "_pyvc", False) \
                        and not self.mutates(f):
                    return self.native(f, args, kw)
                return self.run_function(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f.__name__, args)
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, "_fields"):
            return f(*args, **kw)
        if isinstance(f, type) and f.__module__.startswith(("noqx", "solver", "specs")):
            return self.construct(f, args, kw)
        if not any(engine_val(a) for a in list(args) + list(kw.values())):
            return self.native(f, args, kw)
        cargs = [self.nativize(a) for a in args]
        if all(a is not NotImplemented for a in cargs) and not kw:
            return self.native(f, cargs, kw)
        raise Unsupported(f"call of {getattr(f, '__qualname__', f)} with symbolic arguments")

    def mutates(self, f):
        """Functions that write module state must be interpreted (their effects are observable)."""
        return bool(writes_globals(f))

    def nativize(self, v):
        if isinstance(v, EList) and v.concrete() and not any(engine_val(e.value) for e in v.entries):
            xs = [e.value for e in v.entries]
            return {"list": list, "tuple": tuple, "set": set}[v.kind](xs)
        if isinstance(v, EDict) and v.concrete() and not any(engine_val(e.value[0]) or engine_val(e.value[1]) for e in v.entries):
            return {e.value[0]: e.value[1] for e in v.entries}
        if engine_val(v):
            return NotImplemented
        return v

    def native(self, f, args, kw):
        try:
            r = f(*args, **kw)
        except Unsupported:
            raise
        except Exception as e:
            raise PyRaise((type(e).__name__, str(e)))
        if isinstance(r, list):
            return EList([One(x) for x in r], "list", self.cur.depth)
        return r

    def construct(self, cls, args, kw):
        obj = cls.__new__(cls)
        self.keep.append(obj)
        self.objdepth[id(obj)] = self.cur.depth
        init = getattr(cls, "__init__", None)
        if isinstance(init, types.FunctionType):
            self.call(init, [obj] + list(args), kw)
        return obj

    def bind(self, node, defaults, kwdefaults, args, kw, name):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(params):
            if not a.vararg:
                raise PyRaise(("TypeError", f"{name}() takes {len(params)} positional arguments"))
            vals[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg:
            vals[a.vararg.arg] = ()
        for p, v in zip(params, args):
            vals[p] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in params or k in kwonly:
                if k in vals:
                    raise PyRaise(("TypeError", f"multiple values for {k}"))
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(("TypeError", f"unexpected keyword {k}"))
        if a.kwarg:
            vals[a.kwarg.arg] = extra
        for p, d in zip(params[len(params) - len(defaults):], defaults):
            vals.setdefault(p, d)
        for p, d in zip(kwonly, kwdefaults):
            if d is not _MISSING:
                vals.setdefault(p, d)
        for p in params + kwonly:
            if p not in vals:
                raise PyRaise(("TypeError", f"missing argument {p}"))
        return vals

    def run_function(self, f, args, kw):
        node = func_ast(f)
        kwd = [(f.__kwdefaults__ or {}).get(p.arg, _MISSING) for p in node.args.kwonlyargs]
        vals = self.bind(node, list(f.__defaults__ or ()), kwd, args, kw, f.__name__)
        closure_env = None
        if f.__closure__:
            closure_env = Env(None, -1, f.__name__)
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    closure_env.vars[n] = c.cell_contents
                except ValueError:
                    pass
        return self.run_body(node, vals, closure_env, f.__globals__, f.__qualname__)

    def run_closure(self, c, args, kw):
        vals = self.bind(c.node, c.defaults, c.kwdefaults, args, kw, c.name)
        return self.run_body(c.node, vals, c.env, c.glob, c.name)

    def run_body(self, node, vals, parent, glob, name):
        env = Env(parent, self.cur.depth, name)
        env.vars.update(vals)
        fr = Frame(self, env, glob)
        fr.root = node
        if isinstance(node, ast.Lambda):
            return fr.ev(node.body)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        if is_gen:
            fr.gen = EList([], "list", self.cur.depth)
        saved = self.loopvars
        self.loopvars = list(saved)
        try:
            fr.block(node.body)
        except _Return as r:
            if r.value is not None or not is_gen:
                return fr.gen if is_gen else r.value
        finally:
            self.loopvars = saved
        return fr.gen if is_gen else None

    # ---------------------------------------------------------------- methods of values
    def method(self, obj, name, args, kw):
        obj = self.force(obj)
        if is_val_e(obj):
            if not self.decide(Val.is_VStr(obj)):
                raise PyRaise(("AttributeError", f"'int' object has no attribute '{name}'"))
            obj = z3.simplify(Val.sval(obj))
        if isinstance(obj, SDict):
            if name == "items":
                return View(self.sdict_items(obj))
            if name == "keys":
                return View([map_entry(e, lambda kv: kv[0]) for e in self.sdict_items(obj)])
            if name == "values":
                return View([map_entry(e, lambda kv: kv[1]) for e in self.sdict_items(obj)])
            if name == "get":
                return self.sdict_get(obj, *args)
            if name == "copy" and type(obj) is SDict:
                return self.sdict_copy(obj)
        if isinstance(obj, SParam) and name == "get":
            if args[0] in getattr(obj, "types", {}):
                return self.param(obj, args[0])
            return args[1] if len(args) > 1 else None
        if isinstance(obj, Areas):
            es = self.areas_items(obj)
            if name == "items":
                return View(es)
            if name == "keys":
                return View([map_entry(e, lambda kv: kv[0]) for e in es])
            if name == "values":
                return View([map_entry(e, lambda kv: kv[1]) for e in es])
        if isinstance(obj, EDict):
            if name in ("items", "keys", "values"):
                if getattr(obj, "repeats", False) and name != "values":
                    es = [reordered(e, "keys") for e in obj.entries]
                    return EList(es if name == "items" else [map_entry(e, lambda kv: kv[0]) for e in es], "set", self.cur.depth)
                if not self.dict_many_ok(obj):
                    raise Unsupported("dict with possibly colliding symbolic keys")
                es = self.dict_entries(obj)
                if name == "items":
                    return View(es)
                return View([map_entry(e, lambda kv: kv[0 if name == "keys" else 1]) for e in es])
            if name == "get":
                return self.edict_get(obj, args[0], args[1] if len(args) > 1 else None)
            if name == "setdefault":
                if all(isinstance(e, One) for e in obj.entries) and not deep_sym(args[0]):
                    for e in obj.entries:
                        if self.same(e.value[0], args[0]):
                            return e.value[1]
                    self.setitem(obj, args[0], args[1])
                    return args[1]
                raise Unsupported("setdefault with symbolic keys")
            if name == "clear" and obj.depth >= self.cur.depth:
                obj.entries.clear()
                return None
            if name == "update" and args:
                for e in self.entries_of(self.method(args[0], "items", [], {}) if not isinstance(args[0], (list, tuple)) else args[0]):
                    self.apply("setitem", obj, e)
                return None
        if isinstance(obj, EList):
            if name in ("append", "add", "appendleft"):
                if obj.depth < self.cur.depth:
                    self.cur.add("append", obj, args[0])
                else:
                    if name == "add" and any(isinstance(e, One) and self.same(e.value, args[0]) for e in obj.entries):
                        return None
                    obj.entries.append(One(args[0]))
                return None
            if name in ("extend", "update", "union"):
                tgt = obj if name != "union" else EList(list(obj.entries), "set", self.cur.depth)
                for e in self.entries_of(args[0]):
                    if isinstance(e, One) and name == "update" and any(isinstance(x, One) and self.same(x.value, e.value) for x in tgt.entries):
                        continue
                    if tgt.depth < self.cur.depth:
                        self.cur.add("append", tgt, e.value if isinstance(e, One) else e)
                    else:
                        tgt.entries.append(e)
                return tgt if name == "union" else None
            if name == "copy":
                return EList(list(obj.entries), obj.kind, self.cur.depth)
            if obj.concrete() and obj.depth >= self.cur.depth:
                if name == "pop":
                    try:
                        return obj.entries.pop(*args).value
                    except IndexError as e:
                        raise PyRaise(("IndexError", str(e)))
                if name == "popleft":
                    return obj.entries.pop(0).value
                if name in ("remove", "discard"):
                    for i, e in enumerate(obj.entries):
                        if self.same(e.value, args[0]):
                            del obj.entries[i]
                            return None
                    if name == "remove":
                        raise Unsupported("remove of symbolic element")
                    return None
                if name == "sort" and not any(engine_val(e.value) for e in obj.entries):
                    obj.entries.sort(key=lambda e: e.value)
                    return None
                if name == "index":
                    for i, e in enumerate(obj.entries):
                        if self.same(e.value, args[0]):
                            return i
                if name == "insert":
                    obj.entries.insert(args[0], One(args[1]))
                    return None
                if name == "clear":
                    obj.entries.clear()
                    return None
            if name == "sort" or name == "reverse":
                return None if obj.kind == "set" else self._unsup("list order")
            if name in ("intersection", "difference"):
                return self.setop(ast.BitAnd() if name == "intersection" else ast.Sub(), obj, args[0])
            if name == "issubset":
                raise Unsupported("issubset")
            if name == "count":
                return loops.occurrences(self, obj.entries, args[0])
        if isinstance(obj, dict):
            if name in ("items", "keys", "values") and not args:
                return {"items": lambda: [(k, v) for k, v in obj.items()], "keys": lambda: list(obj), "values": lambda: list(obj.values())}[name]()
            if name == "get":
                if not deep_sym(args[0]):
                    return obj.get(*args)
                for k, v in obj.items():
                    c = self.eq(args[0], k)
                    if c is True or (c is not False and self.decide(c)):
                        return v
                return args[1] if len(args) > 1 else None
            if name in ("setdefault", "update", "pop", "clear"):
                raise Unsupported("mutation of a constant dict")
        if isinstance(obj, (list, set)) and name in ("append", "add", "extend", "update", "remove", "pop", "clear", "insert"):
            raise Unsupported("mutation of a module-level container")
        if isinstance(obj, (set, frozenset)) and name in ("union", "intersection", "difference"):
            if not any(engine_val(a) for a in args):
                return getattr(obj, name)(*args)
            return self.method(EList([One(x) for x in obj], "set", self.cur.depth), name, args, kw)
        if isinstance(obj, (str, Rope)) or is_str_e(obj):
            return self.str_method(obj, name, args, kw)
        if is_int_e(obj) or isinstance(obj, int):
            raise Unsupported(f"int method {name}")
        if not any(engine_val(a) for a in args) and not engine_val(obj):
            return self.native(getattr(obj, name), args, kw)
        raise Unsupported(f"method {type(obj).__name__}.{name}")

    def _unsup(self, msg):
        raise Unsupported(msg)

    def str_method(self, obj, name, args, kw):
        args = [self.force(a) for a in args]
        if name == "join" and isinstance(args[0], SSplit) and args[0].sep == obj:
            sp = args[0]
            if not sp.written:
                return sp.s
            ks = sorted(sp.written)
            vs = [lift(sp.written[k]) for k in ks]
            if any(v is None or not is_str_e(v) for v in vs):
                raise Unsupported("joined parts")
            return uf(f"join_with_{'_'.join(map(str, ks))}", [sp.s, z3.StringVal(sp.sep), *vs], StrSort)
        if name == "join":
            es = []
            for e in self.entries_of(args[0]):
                if isinstance(e, One) and is_val_e(e.value):
                    raise Unsupported("join of untyped values")
                es.append(e)
            if all(isinstance(e, One) for e in es):
                out = []
                for i, e in enumerate(es):
                    if not (isinstance(e.value, (str, Rope)) or is_str_e(e.value)):
                        raise PyRaise(("TypeError", "sequence item: expected str instance"))
                    out += ([obj] if i else []) + [e.value]
                return rope(*out)
            if isinstance(obj, str) and obj.strip() == "" and "\n" in obj or obj == "\n":
                # statement separator: order and blank lines are irrelevant to the program text
                out = []
                for e in es:
                    out.append(rope(e.value, obj) if isinstance(e, One) else Many(e.binders, e.guard, rope(e.value, obj)))
                return Rope(out)
            return Rope([Join(obj, es)])
        if isinstance(obj, str) and not any(engine_val(a) for a in args):
            return self.native(getattr(obj, name), args, kw)
        if isinstance(obj, Rope):
            if name in ("strip", "rstrip", "lstrip") and not args:
                ps = list(obj.pieces)
                if name != "rstrip" and ps and isinstance(ps[0], str):
                    ps[0] = ps[0].lstrip()
                if name != "lstrip" and ps and isinstance(ps[-1], str):
                    ps[-1] = ps[-1].rstrip()
                return Rope(ps).simple()
            if name == "replace" and len(args) == 2 and isinstance(args[0], str) and isinstance(args[1], (str, Rope)) and args[0]:
                pat, out = args[0], []
                for k, p in enumerate(obj.pieces):
                    if isinstance(p, str):
                        for j, q in enumerate(p.split(pat)):
                            out += ([args[1]] if j else []) + [q]
                    elif isinstance(p, Hole) and is_str_e(p.term) and len(pat) == 1 and pat in WORD_FREE and self.entails(uf("word", [p.term], z3.BoolSort())):
                        out.append(p)
                    elif isinstance(p, Hole) and is_str_e(p.term) and len(pat) == 1 and isinstance(args[1], str):
                        # one character: replaced in each part by itself
                        out.append(Hole(uf("str_replaced", [p.term, z3.StringVal(pat), z3.StringVal(args[1])], StrSort)))
                    elif isinstance(p, Hole) and is_int_e(p.term):
                        # the digits of a number must not complete the pattern with the text around it
                        left = obj.pieces[k - 1] if k else ""
                        right = obj.pieces[k + 1] if k + 1 < len(obj.pieces) else ""
                        digs = "-0123456789"
                        if not isinstance(left, str) or not isinstance(right, str) or pat[0] in digs or \
                                any(left.endswith(pat[:x]) and pat[x] in digs for x in range(1, len(pat))) or \
                                any(right.startswith(pat[x:]) and pat[x - 1] in digs for x in range(1, len(pat))):
                            raise Unsupported("replace in symbolic text")
                        out.append(p)
                    else:
                        raise Unsupported("replace in symbolic text")
                return Rope(out).simple()
            if name == "replace" and len(args) == 2 and isinstance(args[0], Rope) and isinstance(args[1], (str, Rope)):
                return replace_rope(obj, args[0], args[1])
            if name == "split" and len(args) < 2 and all(isinstance(p, str) or isinstance(p, Hole) and (
                    is_int_e(p.term) and (not args or isinstance(args[0], str) and args[0] and not any(ch in "-0123456789" for ch in args[0])) or
                    is_str_e(p.term) and (not args or isinstance(args[0], str) and len(args[0]) == 1 and args[0] in WORD_FREE) and
                    self.entails(uf("word", [p.term], z3.BoolSort()))) for p in obj.pieces):
                return EList([One(x) for x in split_rope(obj, *args)], "list", self.cur.depth)
            if name in ("startswith",) and isinstance(args[0], str) and obj.pieces and isinstance(obj.pieces[0], str):
                h = obj.pieces[0]
                if len(h) >= len(args[0]):
                    return h.startswith(args[0])
                if not args[0].startswith(h):
                    return False
            if name in ("endswith",) and isinstance(args[0], str) and obj.pieces and isinstance(obj.pieces[-1], str):
                h = obj.pieces[-1]
                if len(h) >= len(args[0]):
                    return h.endswith(args[0])
            t = obj.as_term()
            if t is None:
                raise Unsupported(f"text method {name}")
            obj = t
        if isinstance(obj, str):
            obj = z3.StringVal(obj)
        a = [lift(x) for x in args]
        if any(x is None for x in a):
            raise Unsupported(f"text method {name}")
        if name == "split" and not args and obj.get_id() in self.splits:
            return EList(list(self.splits[obj.get_id()]), "list", self.cur.depth)
        if name == "split":
            if len(args) == 1 and isinstance(args[0], str) and z3.is_app(obj) and obj.decl().name().startswith("join_with_") and \
                    str(obj.arg(1)) == str(z3.StringVal(args[0])):
                ks = [int(x) for x in obj.decl().name()[len("join_with_"):].split("_")]
                return SSplit(obj.arg(0), args[0], dict(zip(ks, obj.children()[2:])))
            if len(args) == 1 and isinstance(args[0], str):
                return SSplit(obj, args[0])
            if not args:
                return SSplit(obj, "")
            raise Unsupported("split with limit")
        if name == "startswith":
            return z3.PrefixOf(a[0], obj)
        if name == "endswith":
            return z3.SuffixOf(a[0], obj)
        if name in ("isdigit", "isspace", "isnumeric", "isalpha", "isupper", "islower", "isdecimal"):
            return uf(f"str_{name}", [obj], z3.BoolSort())
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "capitalize", "zfill", "removeprefix", "removesuffix"):
            return uf(f"str_{name}_{len(a)}", [obj, *a], StrSort)
        if name in ("find", "index", "count"):
            return uf(f"str_{name}", [obj, *a], z3.IntSort())
        if name == "decode" and not a and z3.is_app(obj) and obj.decl().name() == "str_encode":
            return obj.arg(0)
        if name in ("encode", "decode") and not a:
            return uf(f"str_{name}", [obj], StrSort)
        raise Unsupported(f"text method {name}")


WORD_FREE = " ,()\"\n"  # what a token of an answer does not contain


def split_rope(obj, sep=None):
    """obj.split(sep): the numbers in obj contain no separator (several characters of one never stand beside a number)."""
    out, cur = [], []
    for p in obj.pieces:
        if not isinstance(p, str):
            cur.append(p)
            continue
        if sep is None:
            i = 0
            while i < len(p):
                if p[i].isspace():
                    if cur:
                        out.append(rope(*cur))
                    cur = []
                    i += 1
                else:
                    j = i
                    while j < len(p) and not p[j].isspace():
                        j += 1
                    cur.append(p[i:j])
                    i = j
        else:
            bits = p.split(sep)
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(rope(*cur))
                cur = [b]
    if sep is not None or cur:
        out.append(rope(*cur))
    return out


def replace_rope(obj, pat, new):
    """obj.replace(pat, new) where pat is text - number - text: occurrences are decided piece by piece."""
    digs = "-0123456789"
    pp, op = list(pat.pieces), list(obj.pieces)
    ok = len(pp) == 3 and isinstance(pp[0], str) and isinstance(pp[1], Hole) and is_int_e(pp[1].term) and isinstance(pp[2], str)
    ok = ok and pp[0][0] not in digs and pp[2][0] not in digs
    if not ok or any(not isinstance(p, str) and not (isinstance(p, Hole) and is_int_e(p.term)) for p in op):
        raise Unsupported("replace in symbolic text")
    h, t = pp[0], pp[2]
    out, k = [], 0
    while k < len(op):
        p = op[k]
        if not isinstance(p, str):
            out.append(p)
            k += 1
            continue
        i, done = 0, False
        while i < len(p):
            rest = p[i:]
            if rest.startswith(h) and len(rest) > len(h):
                if rest[len(h)] in digs:
                    raise Unsupported("replace in symbolic text")
            elif rest == h and k + 1 < len(op):
                nxt = op[k + 2] if k + 2 < len(op) else ""
                if isinstance(nxt, str) and nxt.startswith(t) and z3.simplify(op[k + 1].term == pp[1].term).eq(z3.BoolVal(True)):
                    out += [p[:i], new]
                    op[k + 2] = nxt[len(t):]
                    k, done = k + 2, True
                    break
                if not isinstance(nxt, str) or nxt.startswith(t) or nxt[:1] in digs or nxt == "":
                    raise Unsupported("replace in symbolic text")
            elif h.startswith(rest) and k + 1 < len(op) and h[len(rest)] in digs:
                raise Unsupported("replace in symbolic text")
            i += 1
        if not done:
            out.append(p)
            k += 1
    return Rope(out).simple()


class SRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class ExcVal:
    def __init__(self, name, args):
        self.name, self.args = name, args


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


_MISSING = object()


def _is_accref(v):
    return isinstance(v, Rope) and v.pieces and isinstance(v.pieces[0], AccRef)


def a_possible(r, s):
    """Could the symbolic text r equal the literal s?"""
    ps = r.pieces
    if isinstance(ps[0], str) and not s.startswith(ps[0]):
        return False
    if isinstance(ps[-1], str) and not s.endswith(ps[-1]):
        return False
    return True


def _flag_members(f):
    return [c for c in type(f) if c.value & f.value and not (c.value & (c.value - 1))]


def flat(v):
    if isinstance(v, tuple):
        for x in v:
            yield from flat(x)
    else:
        yield v


def deep_sym(v):
    if isinstance(v, tuple):
        return any(deep_sym(x) for x in v)
    return is_sym(v) or isinstance(v, (Rope, SOpt, EList, EDict, SDict, Cells, Areas, SSplit, JDoc, JList, SUnion))


def engine_val(v):
    """Is there anything only the symbolic executor understands inside v?"""
    if isinstance(v, (tuple, list, set, frozenset)):
        return any(engine_val(x) for x in v)
    if isinstance(v, dict):
        return any(engine_val(x) for x in v.values()) or any(engine_val(x) for x in v.keys())
    if is_sym(v) or isinstance(v, (Rope, SOpt, EList, EDict, SDict, Cells, Areas, SSplit, View, SRange, SParam, Closure,
                                   Bound, BoundFn, Poison, ExcVal, JDoc, JList, SUnion)):
        return True
    if hasattr(v, "__dict__") and not isinstance(v, (type, types.FunctionType, types.ModuleType, enum.Enum)):
        return any(engine_val(x) for x in vars(v).values())
    return False


def reordered(e, order):
    """The entry with its elements in another order."""
    if isinstance(e, One):
        return e

    def new(b):
        if b.order == order:
            return "" if order == "rev" else order
        return order if not b.order or order != "rev" else f"{b.order} {order}"

    return Many([b.ordered(new(b)) for b in e.binders], e.guard, e.value)


def map_entry(e, f):
    if isinstance(e, One):
        return One(f(e.value))
    return Many(e.binders, e.guard, f(e.value))


map_entry_any = map_entry


def w_value(w):
    if isinstance(w, One):
        return w.value[1]
    if all(not is_sym(x) for x in flat(w.value[1])):
        return w.value[1]
    raise Unsupported("value of a symbolic write")


def exists(binders, guard):
    """∃ binders. guard, with variables fixed by equations eliminated."""
    vs = [v for b in binders for v in b.vars]
    g = z3.simplify(z3.And(list(guard))) if guard else z3.BoolVal(True)
    g, vs = eliminate(vs, g)
    free = free_consts(g)
    vs = [v for v in vs if str(v) in free]
    if not vs:
        return g
    return z3.Exists(vs, g)


def linear(t):
    """t as ({atom id: (atom, coefficient)}, constant) over integers, or None."""
    if z3.is_int_value(t):
        return {}, t.as_long()
    if z3.is_add(t) or z3.is_sub(t):
        out, k = {}, 0
        for n, a in enumerate(t.children()):
            m, c = linear(a)
            s = -1 if z3.is_sub(t) and n > 0 else 1
            k += s * c
            for i, (x, q) in m.items():
                out[i] = (x, out.get(i, (x, 0))[1] + s * q)
        return out, k
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        m, c = linear(t.arg(0))
        return {i: (x, -q) for i, (x, q) in m.items()}, -c
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        m, c = linear(t.arg(1))
        q0 = t.arg(0).as_long()
        return {i: (x, q0 * q) for i, (x, q) in m.items()}, q0 * c
    return {t.get_id(): (t, 1)}, 0


def isolate(c, vs):
    """(v, t) with the equation c equivalent to v == t for one of vs, or None."""
    if not z3.is_eq(c):
        return None
    for x, t in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
        hit = [v for v in vs if v.eq(x)]
        if hit and str(hit[0]) not in free_consts(t):
            return hit[0], t
    if c.arg(0).sort() != z3.IntSort():
        return None
    m1, k1 = linear(c.arg(0))
    m2, k2 = linear(c.arg(1))
    for i, (x, q) in m2.items():
        m1[i] = (x, m1.get(i, (x, 0))[1] - q)
    k = k1 - k2
    for v in vs:
        if v.get_id() in m1 and m1[v.get_id()][1] in (1, -1):
            q = m1[v.get_id()][1]
            rest = [(x, p) for i, (x, p) in m1.items() if i != v.get_id() and p != 0]
            if any(str(v) in free_consts(x) for x, _ in rest):
                continue
            t = z3.IntVal(-q * k)
            for x, p in rest:
                t = t + (-q * p) * x
            return v, z3.simplify(t)
    return None


def eliminate(vs, g):
    """One-point rule: remove variables v with a conjunct v == t."""
    changed = True
    vs = list(vs)
    while changed and vs:
        changed = False
        conj = list(g.children()) if z3.is_and(g) else [g]
        for c in conj:
            hit = isolate(c, vs)
            if hit is None and z3.is_const(c) and any(v.eq(c) for v in vs):
                hit = c, z3.BoolVal(True)
            if hit:
                g = z3.simplify(z3.substitute(z3.And([d for d in conj if not d.eq(c)] or [z3.BoolVal(True)]), hit))
                vs = [v for v in vs if not v.eq(hit[0])]
                changed = True
                break
    return g, vs


def member(it, e, x):
    if isinstance(e, One):
        return it.eq(e.value, x)
    m = it.freshen(e)
    c = it.eq(m.value, x)
    if c is False:
        return False
    return exists(m.binders, list(m.guard) + ([] if c is True else [c]))


def one_point(it, m, keyv, k):
    """Look up key k in {keyv -> val | m}: returns f(val) -> (condition, value, exact)."""
    c = it.eq(keyv, k)
    if c is False:
        return lambda val: (z3.BoolVal(False), None, True)
    g = z3.simplify(z3.And(list(m.guard) + ([] if c is True else [c])))
    vs = [v for b in m.binders for v in b.vars]
    sub, rest = solve_vars(vs, g)

    def f(val):
        cond = exists(m.binders, list(m.guard) + ([] if c is True else [c]))
        v2 = subst(val, sub)
        names = set()
        for x in flat(v2):
            if is_sym(x):
                names |= set(free_consts(x))
        return cond, v2, not any(str(v) in names for v in rest)

    return f


def solve_vars(vs, g):
    """Substitution for variables determined by equations in g."""
    sub, vs = [], list(vs)
    changed = True
    while changed and vs:
        changed = False
        conj = list(g.children()) if z3.is_and(g) else [g]
        for c in conj:
            hit = isolate(c, vs)
            if hit:
                v, t = hit
                g = z3.simplify(z3.substitute(z3.And([d for d in conj if not d.eq(c)] or [z3.BoolVal(True)]), (v, t)))
                sub = [(a, z3.substitute(b, (v, t))) for a, b in sub] + [(v, t)]
                vs = [w for w in vs if not w.eq(v)]
                changed = True
                break
    return sub, vs


def concrete_binop(op, a, b):
    import operator as o
    t = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow,
         ast.Div: o.truediv, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.RShift: o.rshift, ast.LShift: o.lshift, ast.BitXor: o.xor}
    try:
        return t[type(op)](a, b)
    except (ZeroDivisionError, TypeError) as e:
        raise PyRaise((type(e).__name__, str(e)))


def walk_own(node):
    """AST nodes of a function without nested functions."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


_wg = {}


def writes_globals(f, seen=None):
    """Names of module-level state a repo function (or its repo callees) may write."""
    seen = seen if seen is not None else set()
    if f in seen:
        return set()
    seen.add(f)
    try:
        node = func_ast(f)
    except (Unsupported, OSError):
        return set()
    out = set()
    local = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
    glob = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Global):
            glob |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            local.add(n.id)
    local -= glob
    out |= glob
    for n in ast.walk(node):
        base = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.attr in ("append", "add", "update", "extend", "clear", "pop", "remove", "setdefault", "insert"):
            base = n.func.value.id
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]):
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    x = t.value
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        x = x.value
                    if isinstance(x, ast.Name):
                        base = x.id
        if base and base not in local and base in f.__globals__:
            out.add(base)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in local:
            g = f.__globals__.get(n.func.id)
            if isinstance(g, types.FunctionType) and g.__code__.co_filename.startswith(REPO + "/"):
                out |= writes_globals(g, seen)
    return out


from . import canon, loops  # noqa: E402
from .frame import Frame, BUILTIN  # noqa: E402
