"""Positions in sequences and counters carried through loops over symbolic collections.

rank(binders, guards): the number of iterations of a loop nest before the current one in which one of the guards held.
It is an abstract term named by the canonical text of the guard and of the order of the loop nest; equivalent guards get
the same name (proved by the solver), so that code and contract denote the same number by the same term.
"""
import hashlib
import itertools

import z3

from .values import *
from .canon import canon_entries


class LoopVar(tuple):
    """(env, names, assigned, depth) of one active loop; `loop` is false for a locally summarised `if`."""

    def __new__(cls, xs, loop):
        o = tuple.__new__(cls, xs)
        o.loop = loop
        return o


def shape_of(binders):
    return tuple((b.kind, b.name, getattr(b, "order", ""), len(b.vars)) for b in binders)


_known = {}  # (what, shape, number of arguments) -> [(name, bound consts, free consts, condition)]


def forget():
    _known.clear()
    _first.clear()
    _relays.clear()
    _fact_cache.clear()


def intern(it, what, binders, cond, extra="", hyps=()):
    """(name, free constants in the order of the arguments) of the family {binders : cond}."""
    bound = [v for b in binders for v in b.vars]
    shape = shape_of(binders)
    cond = z3.simplify(cond)
    args = [a for b in binders for a in b.args]
    text, free = canon_entries([Many(binders, [cond], tuple(bound + args))])
    name = f"{what}#{hashlib.md5((repr(shape) + text + extra).encode()).hexdigest()[:12]}"
    key = (what, shape, tuple(v.sort().name() for v in bound), len(free), extra)
    known = _known.setdefault(key, [])
    for n, bs, fs, c, sargs in known:
        if n == name:
            return name, free
    for n, bs, fs, c, sargs in known:
        if sorted(f.sort().name() for f in fs) != sorted(f.sort().name() for f in free):
            continue
        for perm in itertools.islice(itertools.permutations(free), 24):
            if any(x.sort() != y.sort() for x, y in zip(perm, fs)):
                continue
            sub = list(zip(bs, bound)) + list(zip(fs, perm))
            same = z3.And([z3.substitute(c, *sub) == cond] + [z3.substitute(x, *sub) == y for x, y in zip(sargs, args)]) if sub else c == cond
            if _valid(it, same, hyps):
                return n, list(perm)
    known.append((name, bound, list(free), cond, args))
    return name, free


def _valid(it, c, hyps=()):
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*it.axioms)
    s.add(*hyps)
    s.add(z3.Not(c))
    s.add(*facts([c, *hyps]))
    return s.check() == z3.unsat


def basic(b):
    """What membership in the collection alone says about the variables of a range or of the rooms."""
    v = b.vars[0]
    if b.kind == "range":
        return [b.args[0] <= v, v < b.args[1]]
    if b.kind == "areas":
        return [0 <= v, v < uf(f"nareas_{b.name}", list(b.args), z3.IntSort())]
    return None


def rank(it, binders, guards):
    """Iterations before the one of the binders' variables in which one of the guards (lists of conjuncts) holds."""
    cond = z3.simplify(z3.Or([z3.And(list(g)) if g else z3.BoolVal(True) for g in guards]))
    vs = [v for b in binders for v in b.vars]
    if len(binders) == 1:
        b = binders[0]
        k = basic(b)
        if k is not None and not getattr(b, "order", "") and not it.feasible(list(it.cur.pc) + k + [z3.simplify(z3.Not(cond))]):
            return z3.simplify(b.vars[0] - b.args[0]) if b.kind == "range" else b.vars[0]
        if k is not None and b.kind == "range" and getattr(b, "order", "") == "rev" and not it.feasible(list(it.cur.pc) + k + [z3.simplify(z3.Not(cond))]):
            return z3.simplify(b.args[1] - 1 - b.vars[0])
    name, free = intern(it, "rank", binders, cond, hyps=it.cur.pc)
    return uf(name, list(free) + vs, z3.IntSort())


def same_source(es):
    """Entries that stem from the same loop nest (identical bound variables)."""
    k = [[str(v) for b in e.binders for v in b.vars] for e in es]
    return all(x == k[0] and shape_of(e.binders) == shape_of(es[0].binders) for x, e in zip(k, es))


def exclusive(it, es):
    return all(not it.feasible(list(it.cur.pc) + list(a.guard) + list(b.guard)) for a, b in itertools.combinations(es, 2))


def onto(binders, target):
    """Substitution renaming the variables of one nest to those of another."""
    return [(v, w) for b, t in zip(binders, target) for v, w in zip(b.vars, t.vars)]


def indexed(it, es):
    """[(entry, its position)] of a list, or Unsupported."""
    out, ones, manys = [], 0, []
    for e in es:
        if isinstance(e, One):
            if manys:
                raise Unsupported("positions in a mixed list")
            out.append((e, ones))
            ones += 1
        else:
            manys.append(e)
    if not manys:
        return out
    if len(manys) > 1 and not (same_source(manys) and exclusive(it, manys)):
        raise Unsupported("positions in a mixed list")
    for e in manys:
        f = it.freshen(e)
        gs = []
        for x in manys:
            m = onto(x.binders, f.binders)
            gs.append([z3.substitute(g, *m) for g in x.guard])
        i = rank(it, f.binders, gs)
        out.append((f, z3.simplify(i + ones) if ones else i))
    return out


# ------------------------------------------------------------------------------------------------ carried counters
class Carried:
    def __init__(self, env, name, binders, const):
        self.env, self.name, self.binders, self.const = env, name, binders, const


def active(it, env, name):
    """The entries of loopvars, outermost first, through which the variable is carried."""
    out = []
    for x in reversed(it.loopvars):
        e, names, assigned, depth = x
        if e is env and name in names:
            if name in assigned:
                break
            out.append(x)
    return out[::-1]


def delta(it, env, name, down_to):
    """What the current iterations have added so far."""
    from .interp import Slot
    key = ("var", id(env), name)
    d = 0
    reg = it.cur
    while reg is not None and reg.depth > down_to:
        for e in reg.effects:
            if isinstance(e.target, Slot) and e.target.key() == key:
                if e.kind != "accum" or isinstance(e.payload, Many) or not isinstance(e.payload, int):
                    raise Unsupported(f"loop-carried variable {name}")
                d += e.payload
        reg = reg.parent
    return d


def carry_read(it, env, name, v):
    """The value of a counter inside the loops that change it: a placeholder, resolved when the outermost loop ends."""
    chain = [x for x in active(it, env, name)]
    loops = [x for x in chain if getattr(x, "loop", False)]
    depth = chain[0][3] - 1
    d = delta(it, env, name, depth)
    if not loops:
        return v + d if d else v
    regs = {}
    reg = it.cur
    while reg is not None:
        regs[reg.depth] = reg
        reg = reg.parent
    binders = []
    for x in loops:
        r = regs.get(x[3])
        if r is None:
            raise Unsupported(f"loop-carried variable {name}")
        binders += r.binders
    key = (id(env), name, repr(binders))
    c = it.carried.get(key)
    if c is None:
        it.carry_n += 1
        c = it.carried[key] = Carried(env, name, binders, z3.Int(f"carry!{it.serial}_{it.carry_n}"))
    return z3.simplify(c.const + d) if d else c.const


def pending(it, env, names):
    """Placeholders that the loop just executed must resolve (no enclosing loop carries the variable)."""
    out = []
    for c in it.carried.values():
        if c.env is env and c.name in names and not any(getattr(x, "loop", False) for x in active(it, env, c.name)):
            out.append(c)
    return out


def resolve(it, env, names, groups):
    """groups: [(source entry, renamed entry, effects)] of one loop, in order; returns the effects with counters resolved."""
    from .interp import Slot
    todo = pending(it, env, names)
    if not todo:
        return groups
    sub = []
    for name in {c.name for c in todo}:
        key = ("var", id(env), name)
        steps = []
        for src, m, effs in groups:
            for e in effs:
                if isinstance(e.target, Slot) and e.target.key() == key:
                    if e.kind != "accum":
                        raise Unsupported(f"loop-carried variable {name}")
                    x = Many(m.binders, list(m.guard) + list(e.guard), e.payload)
                    if not isinstance(x.value, int) or isinstance(x.value, bool):
                        raise Unsupported(f"loop-carried variable {name}")
                    if any("carry!" in str(g) for g in x.guard):
                        raise Unsupported(f"loop-carried variable {name}")
                    steps.append(x)
        if not steps:
            raise Unsupported(f"loop-carried variable {name}")
        k = steps[0].value
        if any(s.value != k for s in steps):
            raise Unsupported(f"loop-carried variable {name}")
        if len(groups) > 1:
            srcs = [g[0] for g in groups]
            if not (same_source(srcs) and exclusive(it, srcs)):
                raise Unsupported(f"loop-carried variable {name}")
        base = it.get_slot(Slot("var", env, name))
        if not (isinstance(base, int) or is_int_e(base)):
            raise Unsupported(f"loop-carried variable {name}")
        for c in todo:
            if c.name != name:
                continue
            gs = []
            for s in steps:
                if shape_of(s.binders) != shape_of(c.binders):
                    raise Unsupported(f"loop-carried variable {name}")
                m = onto(s.binders, c.binders)
                gs.append([z3.substitute(g, *m) for g in s.guard])
            sub.append((c.const, z3.simplify(lift(base) + k * rank(it, c.binders, gs))))
    out = []
    for src, m, effs in groups:
        new = []
        for e in effs:
            f = type(e)(e.kind, e.target, e.payload, e.guard, e.key)
            if "carry!" in repr(e.payload):
                f.payload = subst(e.payload, sub)
            f.guard = [z3.substitute(g, *sub) for g in e.guard]
            new.append(f)
        out.append((src, m, new))
    for c in todo:
        for key in [k for k, x in it.carried.items() if x is c]:
            del it.carried[key]
    return out


# ------------------------------------------------------------------------------------------------ builtins
def b_enumerate(it, args, kw):
    from .frame import ast
    from .values import View
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    coll = it.force(args[0])
    es = it.entries_of(coll)
    if getattr(coll, "mapped", False) and all(isinstance(e, Many) and len(e.binders) == 1 for e in es):
        out = []
        for e in es:
            e = it.freshen(e)
            b = e.binders[0]
            out.append(Many(e.binders, e.guard, (z3.simplify(b.vars[0] - b.args[0] + lift(start)), e.value)))
        return View(out)
    out = []
    for e, i in indexed(it, es):
        i = it.binop(ast.Add(), i, start)
        out.append(One((i, e.value)) if isinstance(e, One) else Many(e.binders, e.guard, (i, e.value)))
    return View(out)


def b_combinations(it, args, kw):
    coll, k = it.force(args[0]), args[1] if len(args) > 1 else kw["r"]
    es = list(it.entries_of(coll))
    if all(isinstance(e, One) for e in es) and isinstance(k, int):
        return View([One(t) for t in itertools.combinations([e.value for e in es], k)])
    if k != 2:
        raise Unsupported("combinations of a symbolic collection")
    out = []
    for x, i in indexed(it, es):
        for y, j in indexed(it, es):
            c = z3.simplify(lift(i) < lift(j))
            if z3.is_false(c):
                continue
            bs = (x.binders if isinstance(x, Many) else []) + (y.binders if isinstance(y, Many) else [])
            gs = (list(x.guard) if isinstance(x, Many) else []) + (list(y.guard) if isinstance(y, Many) else [])
            if not z3.is_true(c):
                gs.append(c)
            out.append(Many(bs, gs, (x.value, y.value)) if bs or gs else One((x.value, y.value)))
    return View(out)


def occurrences(it, es, v):
    """How many of the entries equal v."""
    n, many = 0, []
    for e in es:
        m = it.freshen(e) if isinstance(e, Many) else Many([], [], e.value)
        c = it.eq(m.value, v)
        if c is False:
            continue
        if c is True and not m.binders and not m.guard:
            n += 1
            continue
        many.append(Many(m.binders, list(m.guard) + ([] if c is True else [c]), 1))
    if many:
        return z3.simplify(n + it.agg("count", many, z3.IntSort()))
    return n


def b_counter(it, args, kw):
    if not args:
        return EDict([], it.cur.depth)
    es = list(it.entries_of(it.force(args[0])))
    if all(isinstance(e, One) for e in es):
        vals = []
        for e in es:
            for p in vals:
                if it.same(p[0], e.value):
                    p[1] += 1
                    break
            else:
                if any(not isinstance(it.eq(p[0], e.value), bool) for p in vals):
                    raise Unsupported("Counter of symbolic values")
                vals.append([e.value, 1])
        return EDict([One(tuple(p)) for p in vals], it.cur.depth)
    out = []
    for e in es:
        f = it.freshen(e) if isinstance(e, Many) else e
        n = occurrences(it, es, f.value)
        out.append(Many(f.binders, f.guard, (f.value, n)) if isinstance(f, Many) else One((f.value, n)))
    return repeating(out, it)


def repeating(es, it):
    """A dict whose entries may name a key several times, always with the same value."""
    d = EDict(es, it.cur.depth)
    d.repeats = True
    return d


def size(it, e, what):
    """How many elements (or k times that, for a sum of the constant k) a whole range contributes; None: no closed form."""
    k = e.value if what == "sum" else 1
    if isinstance(k, bool) or not isinstance(k, int):
        return None
    if isinstance(e, One):
        return z3.IntVal(k)
    if len(e.binders) != 1 or e.binders[0].kind != "range" or e.binders[0].order not in ("", "rev"):
        return None
    b = e.binders[0]
    lo, hi = b.args
    if it.feasible(list(it.cur.pc) + basic(b) + [z3.Not(z3.And(list(e.guard)))] if e.guard else [z3.BoolVal(False)]):
        return None
    n = z3.simplify(lift(hi) - lift(lo))
    if it.feasible(list(it.cur.pc) + [n < 0]):
        n = z3.If(n < 0, z3.IntVal(0), n)
    return k * n


SIZES = {}  # id of a term -> (term, is there an element that it counts)


def nonempty(fs):
    """For the counts in the formulas: positive if and only if there is an element."""
    out, todo, seen = [], list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if x.get_id() in SIZES:
            t, e = SIZES[x.get_id()]
            out += [t >= 0, (t > 0) == e]
        todo.extend(x.children())
    return out


# ------------------------------------------------------------------------------------------------ scans
_first = {}  # name -> (free constants, variable, condition, step)


def first(it, i, cond, start, step):
    """The first of start, start + step, ... at which cond (over the constant i) fails."""
    b = Binder([i], "scan", "scan")
    cond = z3.simplify(cond)
    name, free = intern(it, "first", [b], cond, f"step {step}", it.cur.pc)
    if name not in _first:
        _first[name] = (list(free), i, cond, step)
    return uf(name, list(free) + [lift(start)], z3.IntSort())


def closed(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return False
        if z3.is_quantifier(x):
            return False
        todo.extend(x.children())
    return True


def terms_of(fs):
    out, todo, seen = {}, list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().name() in _first and closed(x):
                out[x.get_id()] = x
            todo.extend(x.children())
    return out


_fact_cache = {}


def facts(fs):
    """What is known of the scan results and relays that the formulas mention."""
    more = relay_facts(fs) if _relays else []
    if not _first:
        return more
    done, out, new = {}, [], list(fs)
    for _ in range(3):
        ts = {k: t for k, t in terms_of(new).items() if k not in done}
        if not ts:
            break
        new = []
        for k, t in ts.items():
            done[k] = t
            key = (t.decl().name(), k)
            if key not in _fact_cache:
                _fact_cache[key] = (t, _facts_of(t))
            new += _fact_cache[key][1]
        out += new
    return out + more


_relays = {}  # map name -> sorts of its keys


def relay_terms(fs):
    """The elements whose predecessors are mentioned: [(map, key terms)]; the maps whose last elements are mentioned."""
    out, ends, todo, seen = {}, set(), list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            n = x.decl().name()
            if n.startswith("head#") and closed(x):
                out[x.get_id()] = (n[5:], x.children())
            elif n.startswith("final#"):
                ends.add(n[6:].rsplit("_", 1)[0])
            todo.extend(x.children())
    return list(out.values()), ends


def relay_facts(fs):
    elems, ends = relay_terms(fs)
    out = []
    for src, ks in elems:
        f = [uf(f"prev#{src}_{j}", ks, k.sort()) for j, k in enumerate(ks)]
        out.append(z3.Implies(z3.And(_dom(src, ks), z3.Not(uf(f"head#{src}", ks, z3.BoolSort()))), z3.And(_dom(src, f), z3.Or([x != y for x, y in zip(ks, f)]))))
    for src in ends:
        vs = [z3.Const(f"end!{j}", s) for j, s in enumerate(_relays.get(src, ()))]
        if vs:
            out.append(z3.ForAll(vs, z3.Implies(_dom(src, vs), _dom(src, [uf(f"final#{src}_{j}", [], v.sort()) for j, v in enumerate(vs)]))))
    return out


def _dom(src, ks):
    return z3.Function(f"dom_{src}", *[k.sort() for k in ks], z3.BoolSort())(*ks)


def _facts_of(t):
    free, i, cond, step = _first[t.decl().name()]
    args, s = t.children()[:-1], t.children()[-1]
    at = lambda x: z3.substitute(cond, *(list(zip(free, args)) + [(i, x)]))
    if step > 0:
        return [t >= s, z3.Not(at(t)), z3.Implies(t > s, z3.And(at(s), at(t - 1)))]
    return [t <= s, z3.Not(at(t)), z3.Implies(t < s, z3.And(at(s), at(t + 1)))]


def unrolled(fs, ks):
    """The same for all positions between the ends, for positions among ks (bounded: for looking for boards only)."""
    out = []
    for t in terms_of(fs).values():
        free, i, cond, step = _first[t.decl().name()]
        args, s = t.children()[:-1], t.children()[-1]
        for k in ks:
            x = z3.IntVal(k)
            here = z3.substitute(cond, *(list(zip(free, args)) + [(i, x)]))
            out.append(z3.Implies(z3.And(s <= x, x < t) if step > 0 else z3.And(t < x, x <= s), here))
    return out


# ------------------------------------------------------------------------------------------------ relays
def every_entry(m):
    """Is this a loop over all entries of a map, in their order?"""
    if len(m.binders) != 1:
        return False
    b = m.binders[0]
    return b.kind == "dict" and b.order == "" and len(m.guard) == 1 and m.guard[0].decl().name() == f"dom_{b.name}" and all(x.eq(y) for x, y in zip(m.guard[0].children(), b.vars))


def relayable(it, m, env, names):
    """Variables that may be handed from one iteration to the next: text or numbers, in a loop over all entries of a map."""
    if not every_entry(m):
        return []
    out = []
    for n in sorted(names):
        v = env.vars.get(n)
        if isinstance(v, str) or isinstance(v, int) and not isinstance(v, bool):
            out.append(n)
    return out


def relay(it, m, env, consts, outs):
    """Every iteration leaves in the variable a value that depends on its element only.  Then an iteration finds the initial
    value there if its element is the first, else what the element before left.
    Returns ([(const, value found)], {name: value after the loop: (initial, last)})."""
    b = m.binders[0]
    k = len(b.vars)
    src = b.name
    _relays[src] = [v.sort() for v in b.vars]
    isfirst = uf(f"head#{src}", b.vars, z3.BoolSort())
    before = [uf(f"prev#{src}_{j}", b.vars, v.sort()) for j, v in enumerate(b.vars)]
    last = [uf(f"final#{src}_{j}", [], v.sort()) for j, v in enumerate(b.vars)]
    ends = [o for o in outs if o[1] in ("normal", "continue")]
    sub, after = [], {}
    marks = {str(c) for c in consts.values()}
    for n, c in consts.items():
        vals = [(o[0], lift(o[3].localenv.get(n))) for o in ends]
        if any(v is None or v.sort() != c.sort() for _, v in vals):
            raise Unsupported(f"loop-carried variable {n}")
        cand = next((v for _, v in vals if not marks & set(free_consts(v))), None)
        if cand is None:
            raise Unsupported(f"loop-carried variable {n}")
        for pc, v in vals:
            if not v.eq(cand) and it.feasible(list(it.cur.pc) + list(m.guard) + list(pc) + [v != cand]):
                raise Unsupported(f"loop-carried variable {n}")
        if any("!" in x and x not in {str(v) for v in b.vars} for x in free_consts(cand)) and it.cur.depth:
            raise Unsupported(f"loop-carried variable {n}")
        old = env.vars[n]
        sub.append((c, z3.If(isfirst, lift(old), z3.substitute(cand, *zip(b.vars, before)))))
        after[n] = (old, z3.simplify(z3.substitute(cand, *zip(b.vars, last))))
    return sub, after


CARRIED = Poison("carried into the loop")


class Last(Poison):
    """A variable after a loop that assigns it in some iterations: the value of the last of them."""

    def __init__(self, m, assigned, old, always=False):
        from .interp import exists
        super().__init__("assigned inside a symbolic loop")
        self.m, self.old, self.assigned, self.always = m, old, [], always
        for pc, v in assigned:
            if isinstance(v, Last) and v.old is CARRIED:
                # assigned by an inner loop, a value that does not depend on which of its iterations
                inner = {str(x) for b in v.m.binders for x in b.vars}
                if len(v.assigned) == 1 and not any(x in repr(v.assigned[0][1]) for x in inner) and not isinstance(v.assigned[0][1], Poison):
                    pc, v = list(pc) + [exists(v.m.binders, list(v.m.guard) + list(v.assigned[0][0]))], v.assigned[0][1]
            self.assigned.append((list(pc), v))

    def value(self, it, certain=False):
        """certain: some iteration is known to assign it."""
        from .interp import exists
        m = self.m
        if len(m.binders) != 1 or not certain and (self.old is None or isinstance(self.old, Poison)) or any(isinstance(v, Poison) for _, v in self.assigned):
            raise Unsupported(self.why)
        b = m.binders[0]
        if self.always and every_entry(m) and not certain:
            vals = [(pc, lift(v)) for pc, v in self.assigned]
            cand = vals[0][1]
            old = self.old
            if any(v is None or v.sort() != cand.sort() or not v.eq(cand) and it.feasible(list(it.cur.pc) + list(m.guard) + pc + [v != cand]) for pc, v in vals):
                raise Unsupported(self.why)
            _relays[b.name] = [v.sort() for v in b.vars]
            if it.decide(exists(m.binders, m.guard)):
                return z3.simplify(z3.substitute(cand, *[(v, uf(f"final#{b.name}_{j}", [], v.sort())) for j, v in enumerate(b.vars)]))
            return old
        known = basic(b)
        if known is None or b.order not in ("", "rev"):
            raise Unsupported(self.why)
        i = b.vars[0]
        lo, hi = map(lift, b.args) if b.kind == "range" else (z3.IntVal(0), uf(f"nareas_{b.name}", list(b.args), z3.IntSort()))
        ids = {c.get_id() for c in known} | {z3.simplify(c).get_id() for c in known}
        here = [c for c in m.guard if c.get_id() not in ids and it.feasible(list(it.cur.pc) + known + [z3.Not(c)])]
        hit = z3.Or([z3.And(here + pc) if here or pc else z3.BoolVal(True) for pc, _ in self.assigned])
        if b.order == "":
            at = first(it, i, z3.And(lo <= i, z3.Not(hit)), z3.simplify(hi - 1), -1)
            found = at >= lo
        else:
            at = first(it, i, z3.And(i < hi, z3.Not(hit)), z3.simplify(lo), 1)
            found = at < hi
        out = self.old
        if certain:
            return subst(self.assigned[0][1], [(i, at)])
        for pc, v in self.assigned:
            c = z3.simplify(z3.And([found] + [z3.substitute(x, (i, at)) for x in pc]))
            v = subst(v, [(i, at)])
            if all((isinstance(x, int) and not isinstance(x, bool)) or is_int_e(x) for x in (v, out)):
                out = z3.simplify(z3.If(c, lift(v), lift(out)))
            elif it.decide(c if len(self.assigned) > 1 else found):
                return v
        return out


def comparisons(t, i):
    """Terms x such that t compares i (with coefficient 1 or -1) with x."""
    from .interp import linear
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if (z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x) or z3.is_eq(x)) and x.arg(0).sort() == z3.IntSort():
            m1, k1 = linear(x.arg(0))
            m2, k2 = linear(x.arg(1))
            for n, (a, q) in m2.items():
                m1[n] = (a, m1.get(n, (a, 0))[1] - q)
            q = m1.get(i.get_id(), (i, 0))[1]
            rest = [(a, p) for n, (a, p) in m1.items() if n != i.get_id() and p]
            if q in (1, -1) and not any(str(i) in free_consts(a) for a, _ in rest):
                b = z3.IntVal(-q * (k1 - k2))
                for a, p in rest:
                    b = b + (-q * p) * a
                b = z3.simplify(b)
                if not any(b.eq(o) for o in out):
                    out.append(b)
        todo.extend(x.children())
    return out


def bound(it, i, cond, step):
    """N with cond => i < N (upwards) or i > N (downwards)."""
    for b in comparisons(cond, i):
        for d in (0, 1, -1):
            n = z3.simplify(b + d)
            if _valid(it, z3.Implies(cond, i < n if step > 0 else i > n)):
                return n
    return None


def scan(fr, s):
    """`while test: body` over symbolic data whose variable advances by one, or from the end of one run to the next."""
    from .frame import stores, check_carried
    from .interp import _Break, _Continue, Effect
    import ast
    it, env = fr.it, fr.env
    names = stores(s.body)
    cand = [n for n in {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)} & names
            if n in env.vars and (isinstance(env.vars[n], int) and not isinstance(env.vars[n], bool) or is_int_e(env.vars[n]))
            and not any(isinstance(x, (ast.Nonlocal, ast.Global)) and n in x.names for x in ast.walk(s))]
    if len(cand) != 1 or s.orelse:
        raise Unsupported("while loop over symbolic data")
    y = cand[0]
    start = lift(fr.load(y))
    why = None
    for step in (1, -1):
        try:
            return _scan(fr, s, y, start, step, names)
        except _Other:
            continue
        except Unsupported as e:
            why = why or e
    raise why or Unsupported("while loop over symbolic data")


class _Other(Exception):
    pass


def _scan(fr, s, y, start, step, names):
    from .frame import check_carried
    from .interp import _Break, _Continue
    it, env = fr.it, fr.env
    saved = dict(env.vars)
    i = it.fresh("s", z3.IntSort())
    guard0 = [start <= i if step > 0 else i <= start]
    binder = Binder([i], "range", "range", [start, start])

    def run():
        env.vars = dict(saved)
        env.vars[y] = i
        it.loopvars.append(LoopVar((env, set(names), {y}, it.cur.depth), True))
        try:
            if not fr.test(s.test):
                return "stop"
            try:
                fr.block(s.body)
            except _Continue:
                pass
            except _Break:
                return "break"
            return "on"
        finally:
            it.loopvars.pop()
            it.cur.localenv = dict(env.vars)

    try:
        outs, effs = it.explore(run, [binder], guard0)
    finally:
        env.vars = saved
    on = [o for o in outs if o[1] == "normal" and o[2] == "on"]
    off = [o for o in outs if o[1] == "normal" and o[2] in ("stop", "break")]
    if len(on) + len(off) != len(outs) or not on or any(o[3].effects for o in off):
        raise Unsupported("while loop over symbolic data")
    if any(c.env is env and "s!" in repr(c.binders) and str(i) in repr(c.binders) for c in it.carried.values()):
        raise Unsupported("counter in a while loop")
    ends = [z3.simplify(lift(o[3].localenv[y])) for o in on]
    cond = z3.simplify(z3.Or([z3.And(list(o[0])) if o[0] else z3.BoolVal(True) for o in on]))
    if all(z3.is_true(z3.simplify(e == i + step)) for e in ends):
        if any(not z3.is_true(z3.simplify(lift(o[3].localenv[y]) == i)) for o in off):
            raise Unsupported("while loop over symbolic data")
        if bound(it, i, cond, step) is None:
            raise Unsupported("while loop that need not end")
        f = first(it, i, cond, start, step)
        g = [start <= i, i < f] if step > 0 else [i <= start, f < i]
        binder = Binder([i], "range", "range", [start, f], "") if step > 0 else Binder([i], "range", "range", [f + 1, start + 1], "rev")
        drop = {c.get_id() for c in on[0][0]}
        for o in on[1:]:
            drop &= {c.get_id() for c in o[0]}
        for e in effs:
            e.guard = [c for c in e.guard if c.get_id() not in drop]
        end = f
    else:
        if any(o[2] == "break" for o in off) or step < 0:
            raise _Other()
        binder, g, effs = orbit(it, i, start, ends, on, off, effs)
        end = Poison("advanced by a while loop")
    check_carried(it, outs, effs)
    saved = dict(saved)
    it.lift_effects(effs, [binder], g)
    for n in names:
        if n == y:
            fr.assign_name(y, end)
        elif any(n in o[3].localenv and o[3].localenv[n] is not saved.get(n, o) for o in on):
            vals = [o[3].localenv.get(n) for o in on]
            from .interp import _is_accref
            if all(_is_accref(v) for v in vals):
                continue
            env.vars[n] = Poison("assigned inside a symbolic loop")


def orbit(it, i, start, ends, on, off, effs):
    """The starts of the runs that a loop visits when each iteration goes from i to F(i) + 1, F(i) the end of i's run."""
    cands = {}
    for e in ends:
        for t in terms_of([e]).values():
            if t.children()[-1].eq(i) and not any(str(i) in free_consts(a) for a in t.children()[:-1]):
                cands[t.get_id()] = t
    stop = z3.simplify(z3.Or([z3.And(list(o[0])) for o in off]))
    for f in cands.values():
        free, v, cond, step = _first[f.decl().name()]
        if step != 1:
            continue
        here = lambda x: z3.substitute(cond, *(list(zip(free, f.children()[:-1])) + [(v, x)]))
        if any(it.feasible(list(it.cur.pc) + [start <= i] + list(o[0]) + [e != f + 1]) for o, e in zip(on, ends)):
            continue
        for n in comparisons(stop, i):
            for d in (0, 1):
                m = z3.simplify(n + d)
                if it.feasible(list(it.cur.pc) + [start <= i, stop != (i >= m)]):
                    continue
                g = [start <= i, i < m, z3.Or(i == start, z3.Not(here(i - 1)))]
                return Binder([i], "range", "range", [start, m], "runs"), g, effs
    raise Unsupported("while loop over symbolic data")


def b_fromkeys(it, args, kw):
    v = args[1] if len(args) > 1 else None
    from .interp import map_entry
    return repeating([map_entry(e, lambda x: (x, v)) for e in it.entries_of(it.force(args[0]))], it)
