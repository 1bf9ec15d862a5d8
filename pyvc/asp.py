"""Logic-program text with holes: statement families, parser, normal form, matcher.

A statement is normalised up to: white space, names of variables, order of body literals / set elements, linear
arithmetic, orientation of comparisons, `== / =`, `not a = b`.  Two statements that match denote the same rule.
"""
import re
import z3

from .values import *


class ParseError(Unsupported):
    pass


# ------------------------------------------------------------------------------------------------ tokens
class T:
    __slots__ = ("k", "v", "sp")

    def __init__(self, k, v, sp=True):
        self.k, self.v, self.sp = k, v, sp

    def __repr__(self):
        return f"{self.k}:{self.v}"


_tok = re.compile(r"""(?P<ws>\s+)|(?P<cmt>%[^\n]*)|(?P<num>\d+)|(?P<var>_*[A-Z][A-Za-z0-9_']*)|(?P<id>_*[a-z][A-Za-z0-9_']*)"""
                  r"""|(?P<anon>_)|(?P<dir>\#[a-z]+)|(?P<p>:-|\.\.|!=|<=|>=|==|<>|\*\*|[-+*/\\<>=(){}\[\],;:.|&?^~@])|(?P<q>")""")
_idc = re.compile(r"[A-Za-z0-9_']+")


def lex(pieces):
    """Pieces -> tokens; Many and Join pieces stay as tokens."""
    out = []
    i, n = 0, len(pieces)
    pos = 0
    ws = True
    while i < n:
        p = pieces[i]
        if isinstance(p, Hole):
            if is_int_e(p.term):
                t = T("hint", p.term, ws)
            else:
                t = T("hstr", [p], ws)
            i, pos = i + 1, 0
            # composite identifier starting with a hole
            if t.k == "hstr" or (i < n and isinstance(pieces[i], str) and _idc.match(pieces[i]) and t.k == "hint"):
                parts = [p]
                i, pos = _ident_tail(pieces, i, pos, parts)
                if len(parts) > 1:
                    t = T("hid", parts, ws)
            out.append(t)
            ws = False
            continue
        if isinstance(p, (Many, Join)):
            out.append(T("many" if isinstance(p, Many) else "join", p, ws))
            i, pos, ws = i + 1, 0, True
            continue
        if not isinstance(p, str):
            raise Unsupported(f"piece {type(p).__name__}")
        if pos >= len(p):
            i, pos = i + 1, 0
            continue
        m = _tok.match(p, pos)
        if not m:
            raise ParseError(f"character {p[pos]!r}")
        k = m.lastgroup
        pos = m.end()
        if k in ("ws", "cmt"):
            ws = True
            continue
        if k == "id":
            parts = [m.group()]
            i, pos = _ident_tail(pieces, i, pos, parts)
            out.append(T("id" if len(parts) == 1 else "hid", parts[0] if len(parts) == 1 else parts, ws))
        elif k in ("var", "num") and pos >= len(p) and i + 1 < n and isinstance(pieces[i + 1], Hole):
            raise ParseError("variable or number glued to a symbolic part")
        elif k == "q":
            parts = []
            while True:
                if i >= n:
                    raise ParseError("unterminated string")
                p = pieces[i]
                if isinstance(p, str):
                    j = p.find('"', pos)
                    if j < 0:
                        if p[pos:]:
                            parts.append(p[pos:])
                        i, pos = i + 1, 0
                        continue
                    if p[pos:j]:
                        parts.append(p[pos:j])
                    pos = j + 1
                    break
                if isinstance(p, Hole):
                    parts.append(p)
                    i, pos = i + 1, 0
                    continue
                raise ParseError("collection inside a quoted string")
            out.append(T("str", parts, ws))
        else:
            out.append(T(k, m.group(), ws))
        ws = False
    return out


def _ident_tail(pieces, i, pos, parts):
    """Continue an identifier over adjacent holes and identifier characters."""
    n = len(pieces)
    while i < n:
        p = pieces[i]
        if isinstance(p, str):
            if pos >= len(p):
                i, pos = i + 1, 0
                continue
            m = _idc.match(p, pos)
            if not m:
                return i, pos
            if isinstance(parts[-1], str):
                parts[-1] += m.group()
            else:
                parts.append(m.group())
            pos = m.end()
        elif isinstance(p, Hole):
            parts.append(p)
            i, pos = i + 1, 0
        else:
            return i, pos
    return i, pos


# ------------------------------------------------------------------------------------------------ families
class Family:
    """All instances of one statement for bindings of binders satisfying guard."""

    __slots__ = ("binders", "guard", "stmt", "tag", "src")

    def __init__(self, binders, guard, stmt, tag=None, src=""):
        self.binders, self.guard, self.stmt, self.tag, self.src = list(binders), list(guard), stmt, tag, src

    def vars(self):
        return [v for b in self.binders for v in b.vars]

    def __repr__(self):
        return f"{show(self.stmt)}  [{self.binders} : {self.guard}]"


def families(value, tag=None):
    """Program text (str, Rope) -> list of Family."""
    pieces = value.pieces if isinstance(value, Rope) else (value,)
    out = []
    _split(lex([p for p in pieces if p != ""]), [], [], out, tag)
    return out


def _split(tokens, binders, guard, out, tag):
    alts = [([], [])]  # (extra guard, tokens)
    for t in tokens:
        if t.k == "many":
            m = t.v
            inner = lex(list(m.value.pieces) if isinstance(m.value, Rope) else [m.value])
            if all(not a[1] for a in alts):
                _split(inner, binders + m.binders, guard + m.guard, out, tag)
                continue
            if not m.binders and not any(x.k == "p" and x.v == "." for x in inner):
                g = list(m.guard)
                ng = [z3.simplify(z3.Not(z3.And(g)))]
                alts = [(e + g, ts + inner) for e, ts in alts] + [(e + ng, ts) for e, ts in alts]
                continue
            raise Unsupported("collection spliced into a statement")
        for e, ts in alts:
            ts.append(t)
        if t.k == "p" and t.v == ".":
            for e, ts in alts:
                out.append(Family(binders, guard + e, parse_statement(ts), tag))
            alts = [([], [])]
    for e, ts in alts:
        if ts:
            raise ParseError(f"unterminated statement {ts[:6]}")


# ------------------------------------------------------------------------------------------------ parser
class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, *vs):
        if self.i >= len(self.t):
            return False
        t = self.t[self.i]
        return t.k == "p" and t.v in vs

    def kind(self):
        return self.t[self.i].k if self.i < len(self.t) else None

    def val(self):
        return self.t[self.i].v if self.i < len(self.t) else None

    def eat(self, v):
        if not self.peek(v):
            raise ParseError(f"expected {v} at {self.t[self.i:self.i + 5]} in {self.t}")
        self.i += 1

    def next(self):
        self.i += 1
        return self.t[self.i - 1]


CMP = ("=", "==", "!=", "<>", "<", "<=", ">", ">=")
FLIP = {"=": "=", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
NEG = {"=": "!=", "!=": "=", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}


def parse_statement(toks):
    p = P(toks)
    if p.kind() == "dir" and p.val() in ("#show", "#defined"):
        d = p.next().v
        if p.peek("."):
            return ("dir", d, (), 0)
        name = p.next()
        parts = name_parts(name)
        if p.peek("/"):
            p.eat("/")
            n = term(p)
            p.eat(".")
            return ("dir", d, parts, n)
        raise ParseError("show term")
    if p.kind() == "dir" and p.val() == "#const":
        raise ParseError("#const")
    head = None
    if not p.peek(":-"):
        head = parse_head(p)
    body = []
    if p.peek(":-"):
        p.eat(":-")
        if not p.peek("."):
            body = parse_body(p, (".",))
    p.eat(".")
    return ("rule", head, dedupe(body))


def parse_head(p):
    els = [literal(p, head=True)]
    while p.peek(";", "|"):
        p.next()
        els.append(literal(p, head=True))
    if len(els) > 1:
        return ("disj", dedupe(els))
    return els[0]


def parse_body(p, stops):
    out = []
    while True:
        out += literals(p)
        if p.peek(",", ";"):
            p.next()
            if p.peek(*stops):
                break
            continue
        break
    return out


def literals(p):
    """One body literal; a join expands to a family element."""
    if p.kind() == "join":
        return [join_node(p.next().v)]
    return [literal(p)]


def join_node(j):
    ents = []
    for e in j.entries:
        v = e.value
        ps = list(v.pieces) if isinstance(v, Rope) else [Hole(v)] if is_sym(v) else [v]
        ents.append(e if isinstance(e, One) else Many(e.binders, e.guard, norm_ws(Rope(ps))))
    return ("join", j.sep.strip(), ents)


def norm_ws(r):
    return Rope([re.sub(r"\s+", " ", p) if isinstance(p, str) else p for p in r.pieces])


def dedupe(xs):
    seen, out = set(), []
    for x in xs:
        if isinstance(x, tuple) and x[0] == "cmp" and x[1] == "true":
            continue
        k = repr(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return tuple(out)


def literal(p, head=False):
    neg = 0
    while p.kind() == "id" and p.val() == "not":
        p.next()
        neg += 1
    if neg > 2:
        neg -= 2
    if p.kind() == "dir" and p.val() in ("#count", "#sum", "#min", "#max", "#sum+"):
        lit = aggregate(p, None, None)
    elif p.peek("{"):
        lit = aggregate(p, None, None)
    elif p.kind() == "dir" and p.val() in ("#true", "#false"):
        lit = ("const", p.next().v)
    else:
        a = term(p)
        if p.peek(*CMP):
            op = canon_op(p.next().v)
            if p.kind() == "dir" or p.peek("{"):
                lit = aggregate(p, a, op)
            else:
                b = term(p)
                parts = [cmp_node(op, a, b)]
                while p.peek(*CMP):
                    op = canon_op(p.next().v)
                    c = term(p)
                    parts.append(cmp_node(op, b, c))
                    b = c
                if len(parts) > 1:
                    if neg:
                        raise ParseError("negated comparison chain")
                    lit = ("chain", tuple(parts))
                else:
                    lit = parts[0]
        elif p.peek("{") or (p.kind() == "dir" and p.val() in ("#count", "#sum", "#min", "#max")):
            lit = aggregate(p, a, "<=")
        else:
            lit = to_atom(a)
    if neg:
        if lit[0] == "cmp" and neg == 1 and lit[1] in NEG:
            lit = cmp_node(NEG[lit[1]], lit[2], lit[3])
        elif lit[0] == "cmp":
            pass
        else:
            lit = ("not", neg, lit)
    if p.peek(":") and lit[0] in ("atom", "not", "cmp"):
        p.next()
        cond = []
        while True:
            cond += literals(p)
            if p.peek(","):
                p.next()
                continue
            break
        lit = ("cond", lit, dedupe(cond))
    return lit


def canon_op(o):
    return {"==": "=", "<>": "!="}.get(o, o)


def cmp_node(op, a, b):
    if op in (">", ">="):
        op, a, b = FLIP[op], b, a
    if op in ("=", "!=") and skel(a) > skel(b):
        a, b = b, a
    return ("cmp", op, a, b)


def to_atom(t):
    if t[0] == "fn":
        return ("atom", t[1], t[2])
    if t[0] == "id":
        return ("atom", t[1], ())
    if t[0] == "opaque":
        return ("atom", (Hole(t[1]),), ())
    raise ParseError(f"not an atom: {t}")


def name_parts(tok):
    if tok.k == "id":
        return (tok.v,)
    if tok.k in ("hid", "hstr"):
        return tuple(tok.v)
    raise ParseError(f"identifier expected: {tok}")


def aggregate(p, left, lop):
    """[left op] #fn { elements } [op right]"""
    fn = "set"
    if p.kind() == "dir":
        fn = p.next().v
    p.eat("{")
    els = []
    if not p.peek("}"):
        while True:
            els += agg_element(p, fn)
            if p.peek(";"):
                p.next()
                continue
            if fn == "set" and p.peek(","):
                p.next()
                continue
            break
    p.eat("}")
    guards = []
    if left is not None:
        guards.append(int_guard(FLIP[lop], left, fn))
    if p.peek(*CMP):
        op = canon_op(p.next().v)
        guards.append(int_guard(op, term(p), fn))
    elif p.i < len(p.t) and not p.peek(".", ",", ";", ":-", ":"):
        guards.append(int_guard("<=", term(p), fn))
    return ("agg", fn, dedupe(els), tuple(guards))


def int_guard(op, t, fn):
    """Integer-valued aggregates: strict bounds become non-strict."""
    if fn in ("set", "#count", "#sum"):
        if op == "<":
            return ("<=", lin_add(t, -1))
        if op == ">":
            return (">=", lin_add(t, 1))
    return (op, t)


def agg_element(p, fn):
    if p.kind() == "join":
        return [join_node(p.next().v)]
    if fn == "set":
        lit = literal(p)
        return [lit if lit[0] == "cond" else ("cond", lit, ())]
    ts = []
    if not p.peek(":"):
        ts.append(term(p))
        while p.peek(","):
            p.next()
            ts.append(term(p))
    cond = []
    if p.peek(":"):
        p.next()
        if not p.peek(";", "}"):
            while True:
                cond += literals(p)
                if p.peek(","):
                    p.next()
                    continue
                break
    return [("el", tuple(ts), dedupe(cond))]


# terms -------------------------------------------------------------------------------------------
def term(p):
    a = additive(p)
    if p.peek(".."):
        p.next()
        b = additive(p)
        if a[0] == "int" and b[0] == "int" and repr(a[1]) == repr(b[1]):
            return a
        return ("ivl", a, b)
    return a


def additive(p):
    a = multiplicative(p)
    while p.peek("+", "-"):
        op = p.next().v
        b = multiplicative(p)
        a = lin_comb(a, b, 1 if op == "+" else -1)
    return a


def multiplicative(p):
    a = unary(p)
    while p.peek("*", "/", "\\", "**"):
        op = p.next().v
        b = unary(p)
        if op == "*":
            if a[0] == "int" and isinstance(a[1], int):
                a = lin_scale(b, a[1])
                continue
            if b[0] == "int" and isinstance(b[1], int):
                a = lin_scale(a, b[1])
                continue
            a = ("mul", tuple(sorted([a, b], key=skel)))
        else:
            a = ("bin", op, a, b)
    return a


def unary(p):
    if p.peek("-"):
        p.next()
        return lin_scale(unary(p), -1)
    if p.peek("|"):
        p.next()
        t = additive(p)
        p.eat("|")
        return ("abs", abs_norm(t))
    if p.peek("("):
        p.next()
        if p.peek(")"):
            p.next()
            return ("tup", ())
        xs = [term(p)]
        pool = False
        comma = False
        while p.peek(",", ";"):
            if p.next().v == ";":
                pool = True
            else:
                comma = True
                if p.peek(")"):
                    break
            xs.append(term(p))
        p.eat(")")
        if pool and comma:
            raise ParseError("mixed pool")
        if pool:
            return ("pool", tuple(sorted(xs, key=lambda x: repr(skel(x)))))
        if len(xs) == 1 and not comma:
            return xs[0]
        return ("tup", tuple(xs))
    t = p.next()
    if t.k == "num":
        return ("int", int(t.v))
    if t.k == "hint":
        return ("int", t.v)
    if t.k == "var":
        return ("var", t.v)
    if t.k == "anon":
        return ("anon",)
    if t.k == "str":
        return ("str", tuple(t.v))
    if t.k == "dir" and t.v in ("#inf", "#sup"):
        return ("id", (t.v,))
    if t.k == "join":
        return join_node(t.v)
    if t.k in ("id", "hid", "hstr"):
        parts = name_parts(t)
        if p.peek("("):
            p.next()
            args = []
            pools = [args]
            if not p.peek(")"):
                while True:
                    args.append(term(p))
                    if p.peek(","):
                        p.next()
                        continue
                    if p.peek(";"):
                        p.next()
                        args = []
                        pools.append(args)
                        continue
                    break
            p.eat(")")
            if len(pools) > 1:
                return ("fn", parts, (("pool", tuple(sorted((("tup", tuple(a)) if len(a) != 1 else a[0] for a in pools), key=lambda x: repr(skel(x))))),))
            return ("fn", parts, tuple(args))
        if t.k == "hstr":
            return ("opaque", parts[0].term)
        return ("id", parts)
    raise ParseError(f"term expected at {t}")


def lin_parts(t):
    """(constant, [(coeff, term)])"""
    if t[0] == "int":
        return t[1], []
    if t[0] == "lin":
        return t[1], list(t[2])
    return 0, [(1, t)]


def lin_make(c, xs):
    acc = {}
    for k, t in xs:
        key = repr(t)
        if key in acc:
            acc[key] = (acc[key][0] + k, t)
        else:
            acc[key] = (k, t)
    xs = tuple(sorted(((k, t) for k, t in acc.values() if k != 0), key=lambda x: (skel(x[1]), x[0], repr(x[1]))))
    if not isinstance(c, int):
        c = z3.simplify(c)
        if z3.is_int_value(c):
            c = c.as_long()
    if not xs:
        return ("int", c)
    if len(xs) == 1 and xs[0][0] == 1 and isinstance(c, int) and c == 0:
        return xs[0][1]
    return ("lin", c, xs)


def lin_comb(a, b, s):
    ca, xa = lin_parts(a)
    cb, xb = lin_parts(b)
    return lin_make(ca + cb if s == 1 else ca - cb, xa + [(s * k, t) for k, t in xb])


def lin_scale(a, k):
    c, xs = lin_parts(a)
    return lin_make(c * k, [(k * q, t) for q, t in xs])


def lin_add(a, k):
    c, xs = lin_parts(a)
    return lin_make(c + k, xs)


def abs_norm(t):
    """|t| = |-t|: choose the sign so that the first coefficient is positive."""
    c, xs = lin_parts(t)
    return ("absarg", c, tuple(xs))


# ------------------------------------------------------------------------------------------------ skeletons and display
def skel(x):
    """Structure without variable names, integers, or symbolic parts."""
    if isinstance(x, str):
        return x
    if isinstance(x, Hole):
        return "⟦⟧"
    if isinstance(x, int) or is_sym(x):
        return "#"
    if isinstance(x, tuple):
        if not x:
            return "()"
        h = x[0]
        if h == "var":
            return "V"
        if h == "anon":
            return "_"
        if h == "int":
            return "#"
        if h == "opaque":
            return "#"
        if h == "lin":
            return "L(" + "+".join(sorted(("-" if k < 0 else "") + str(abs(k)) + skel(t) for k, t in x[2])) + ")"
        if h == "absarg":
            return "A(" + "+".join(sorted(str(abs(k)) + skel(t) for k, t in x[2])) + ")"
        if h == "join":
            return "J" + x[1]
        if h == "rule":
            return f"R({skel(x[1]) if x[1] is not None else ''}:-{','.join(sorted(map(skel, x[2])))})"
        if h == "agg":
            return f"G({x[1]},{','.join(sorted(map(skel, x[2])))},{[(o, skel(t)) for o, t in x[3]]})"
        if h in ("disj", "chain"):
            return h + ",".join(sorted(map(skel, x[1])))
        if h == "cond":
            return f"C({skel(x[1])}:{','.join(sorted(map(skel, x[2])))})"
        if h == "el":
            return f"E({','.join(map(skel, x[1]))}:{','.join(sorted(map(skel, x[2])))})"
        return "(" + ",".join(skel(y) for y in x) + ")"
    if x is None:
        return "N"
    return repr(x)


def show(x):
    """Readable text of a statement."""
    if isinstance(x, str):
        return x
    if isinstance(x, Hole):
        return f"⟦{x.term}⟧"
    if is_sym(x):
        return f"⟦{re.sub(chr(10), ' ', str(x))}⟧"
    if isinstance(x, int):
        return str(x)
    h = x[0] if isinstance(x, tuple) and x else None
    if h == "rule":
        return (show(x[1]) if x[1] is not None else "") + (" :- " + ", ".join(map(show, x[2])) if x[2] else "") + "."
    if h == "dir":
        return f"{x[1]} {''.join(map(show, x[2]))}/{show(x[3])}."
    if h == "var":
        return x[1]
    if h == "anon":
        return "_"
    if h == "int":
        return show(x[1])
    if h == "opaque":
        return show(x[1])
    if h == "str":
        return '"' + "".join(map(show, x[1])) + '"'
    if h == "id":
        return "".join(map(show, x[1]))
    if h in ("fn", "atom"):
        return "".join(map(show, x[1])) + ("(" + ", ".join(map(show, x[2])) + ")" if x[2] else "")
    if h in ("lin", "absarg"):
        s = " + ".join((f"{k}*" if k != 1 else "") + show(t) for k, t in x[2])
        return s + ("" if isinstance(x[1], int) and x[1] == 0 else " + " + show(x[1]))
    if h == "abs":
        return "|" + show(x[1]) + "|"
    if h == "not":
        return "not " * x[1] + show(x[2])
    if h == "cmp":
        return f"{show(x[2])} {x[1]} {show(x[3])}"
    if h == "chain":
        return ", ".join(map(show, x[1]))
    if h == "cond":
        return show(x[1]) + (" : " + ", ".join(map(show, x[2])) if x[2] else "")
    if h == "el":
        return ", ".join(map(show, x[1])) + " : " + ", ".join(map(show, x[2]))
    if h == "agg":
        return (x[1] if x[1] != "set" else "") + "{ " + "; ".join(map(show, x[2])) + " }" + "".join(f" {o} {show(t)}" for o, t in x[3])
    if h == "ivl":
        return show(x[1]) + ".." + show(x[2])
    if h in ("tup",):
        return "(" + ", ".join(map(show, x[1])) + ")"
    if h == "pool":
        return "(" + "; ".join(map(show, x[1])) + ")"
    if h == "mul":
        return " * ".join("(" + show(t) + ")" for t in x[1])
    if h == "bin":
        return f"({show(x[2])} {x[1]} {show(x[3])})"
    if h == "disj":
        return "; ".join(map(show, x[1]))
    if h == "join":
        return f"⟪{x[2]}⟫"
    return repr(x)


# ------------------------------------------------------------------------------------------------ matcher
class St:
    """Matching state: variable bijection and equations between holes."""

    __slots__ = ("m", "r", "eqs")

    def __init__(self, m=None, r=None, eqs=()):
        self.m, self.r, self.eqs = m or {}, r or {}, eqs

    def bind(self, a, b):
        x, y = self.m.get(a), self.r.get(b)
        if x is None and y is None:
            m, r = dict(self.m), dict(self.r)
            m[a], r[b] = b, a
            return St(m, r, self.eqs)
        return self if x == b and y == a else None

    def eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return self if a == b else None
        x = z3.IntVal(a) if isinstance(a, int) else a
        y = z3.IntVal(b) if isinstance(b, int) else b
        if x.sort() != y.sort():
            return None
        if x.eq(y):
            return self
        e = z3.simplify(x == y)
        if z3.is_false(e):
            return None
        if z3.is_true(e):
            return self
        return St(self.m, self.r, self.eqs + ((x, y),))


LIMIT = [0]


def unify(a, b, st):
    """Yield matching states."""
    LIMIT[0] -= 1
    if LIMIT[0] < 0:
        return
    if isinstance(a, (int,)) or is_sym(a):
        if isinstance(b, int) or is_sym(b):
            s = st.eq(a, b)
            if s:
                yield s
        return
    if isinstance(a, str) or a is None:
        if a == b:
            yield st
        return
    if isinstance(a, Hole):
        if isinstance(b, Hole):
            s = st.eq(a.term, b.term)
            if s:
                yield s
        return
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return
    if not a or not b:
        if a == b:
            yield st
        return
    ha, hb = a[0], b[0]
    if not isinstance(ha, str) or not isinstance(hb, str):
        yield from seq(a, b, st)
        return
    if ha != hb:
        return
    if ha == "var":
        s = st.bind(a[1], b[1])
        if s:
            yield s
    elif ha == "anon":
        yield st
    elif ha in ("int", "opaque"):
        s = st.eq(a[1], b[1])
        if s:
            yield s
    elif ha in ("str", "id"):
        yield from name_unify(a[1], b[1], st)
    elif ha in ("fn", "atom"):
        if len(a[2]) != len(b[2]):
            return
        for s in name_unify(a[1], b[1], st):
            yield from seq(a[2], b[2], s)
    elif ha == "lin":
        if len(a[2]) == len(b[2]):
            s = st.eq(a[1], b[1])
            if s:
                yield from bag(a[2], b[2], s)
    elif ha == "absarg":
        if len(a[2]) == len(b[2]):
            s = st.eq(a[1], b[1])
            if s:
                yield from bag(a[2], b[2], s)
            s = st.eq(a[1], -b[1] if isinstance(b[1], int) else z3.simplify(-b[1]))
            if s:
                yield from bag(a[2], tuple((-k, t) for k, t in b[2]), s)
    elif ha == "rule":
        if (a[1] is None) != (b[1] is None) or len(a[2]) != len(b[2]):
            return
        if a[1] is None:
            yield from bag(a[2], b[2], st)
        else:
            for s in unify(a[1], b[1], st):
                yield from bag(a[2], b[2], s)
    elif ha == "dir":
        if a[1] == b[1]:
            for s in name_unify(a[2], b[2], st):
                yield from unify(a[3], b[3], s)
    elif ha == "agg":
        if a[1] == b[1] and len(a[2]) == len(b[2]) and len(a[3]) == len(b[3]):
            for s in guards_unify(a[3], b[3], st):
                yield from bag(a[2], b[2], s)
    elif ha in ("disj", "chain", "pool"):
        yield from bag(a[1], b[1], st)
    elif ha == "cond":
        for s in unify(a[1], b[1], st):
            yield from bag(a[2], b[2], s)
    elif ha == "el":
        if len(a[1]) == len(b[1]):
            for s in seq(a[1], b[1], st):
                yield from bag(a[2], b[2], s)
            if len(a[1]) == 2 and len(a[1]) == len(b[1]):
                pass
    elif ha == "join":
        if a[1] != b[1]:
            return
        from .canon import canon_entries
        ta, fa = canon_entries(a[2])
        tb, fb = canon_entries(b[2])
        if ta == tb and len(fa) == len(fb):
            s = st
            for x, y in zip(fa, fb):
                s = s.eq(x, y)
                if not s:
                    return
            yield s
    elif ha == "mul":
        yield from bag(a[1], b[1], st)
    elif ha == "not":
        if a[1] == b[1]:
            yield from unify(a[2], b[2], st)
    elif ha == "cmp":
        if a[1] == b[1]:
            for s in unify(a[2], b[2], st):
                yield from unify(a[3], b[3], s)
            if a[1] in ("=", "!="):
                for s in unify(a[2], b[3], st):
                    yield from unify(a[3], b[2], s)
    else:
        if len(a) == len(b):
            yield from seq(a[1:], b[1:], st)


def guards_unify(ga, gb, st):
    import itertools
    for perm in itertools.permutations(gb):
        if all(x[0] == y[0] for x, y in zip(ga, perm)):
            yield from seq([x[1] for x in ga], [y[1] for y in perm], st)


def name_unify(pa, pb, st):
    """Identifiers or strings made of literal and symbolic parts."""
    if all(isinstance(p, str) for p in pa) and all(isinstance(p, str) for p in pb):
        if "".join(pa) == "".join(pb):
            yield st
        return
    if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
        s = st
        for x, y in zip(pa, pb):
            if isinstance(x, str):
                if x != y:
                    return
            else:
                s = s.eq(x.term, y.term)
                if not s:
                    return
        yield s
        return
    ta, tb = Rope(pa).as_term(), Rope(pb).as_term()
    if ta is not None and tb is not None:
        s = st.eq(ta, tb)
        if s:
            yield s


def seq(xs, ys, st):
    if len(xs) != len(ys):
        return
    if not xs:
        yield st
        return
    for s in unify(xs[0], ys[0], st):
        yield from seq(xs[1:], ys[1:], s)


_sk = {}


def skc(x):
    k = id(x)
    v = _sk.get(k)
    if v is None or v[0] is not x:
        v = (x, skel(x))
        _sk[k] = v
    return v[1]


def bag(xs, ys, st):
    """Match two collections in any order."""
    if len(xs) != len(ys):
        return
    if not xs:
        yield st
        return
    # most constrained element first: an element all of whose variables are bound, or with a unique skeleton
    ys = list(ys)
    groups = {}
    for y in ys:
        groups.setdefault(skc(y) if isinstance(y, tuple) else skel(y), []).append(y)
    best, bi = None, 0
    for i, x in enumerate(xs):
        k = skc(x) if isinstance(x, tuple) else skel(x)
        g = groups.get(k)
        if not g:
            return
        n = (len(g), len([1 for v in vars_of(x) if v not in st.m]))
        if best is None or (n[1] == 0, -n[0]) > (best[1] == 0, -best[0]):
            best, bi = n, i
    x = xs[bi]
    rest = tuple(xs[:bi]) + tuple(xs[bi + 1:])
    cands = [j for j, y in enumerate(ys) if skel(y) == skel(x)]
    rx = plain_repr(x)
    cands.sort(key=lambda j: 0 if plain_repr(ys[j]) == rx else 1)
    for j in cands:
        for s in unify(x, ys[j], st):
            got = False
            for s2 in bag(rest, tuple(ys[:j]) + tuple(ys[j + 1:]), s):
                got = True
                yield s2
            if s is st and got:
                # x matched ys[j] without any choice: other candidates add nothing
                return


_pr = {}


def plain_repr(x):
    """repr without the serial numbers of bound variables (only used to try likely pairs first)."""
    v = _pr.get(id(x))
    if v is None or v[0] is not x:
        v = (x, re.sub(r"!\d+_\d+", "", repr(x)))
        _pr[id(x)] = v
    return v[1]


_vo = {}


def vars_of(x):
    k = id(x)
    v = _vo.get(k)
    if v is not None and v[0] is x:
        return v[1]
    out = set()

    def go(y):
        if isinstance(y, tuple):
            if len(y) == 2 and y[0] == "var":
                out.add(y[1])
            else:
                for z in y:
                    go(z)
    go(x)
    _vo[k] = (x, out)
    return out


def matches(a, b, limit=30):
    """Sets of hole equations under which statements a and b are the same (up to `limit` ways)."""
    LIMIT[0] = 20000
    out, seen = [], set()
    for s in unify(a, b, St()):
        key = tuple(sorted(f"{x}={y}" for x, y in s.eqs))
        if key not in seen:
            seen.add(key)
            out.append(s.eqs)
            if not s.eqs or len(out) >= limit:
                break
    return out


# ------------------------------------------------------------------------------------------------ shape ids
def canon_shapes(fams):
    """Variant numbers of shape_* rules are arbitrary labels: replace each by its rank among the sorted bodies."""
    def hd(f):
        s = f.stmt
        if s[0] == "rule" and s[1] and s[1][0] == "atom" and s[1][1] and isinstance(s[1][1][0], str) and s[1][1][0].startswith("shape_"):
            return repr(s[1][1]), s[1][2]
        return None, ()
    groups = {}
    for f in fams:
        n, args = hd(f)
        if n and len(args) >= 4 and args[-1][0] == "int" and isinstance(args[-1][1], int):
            body = tuple(sorted(show(x) for x in f.stmt[2]))
            groups.setdefault((n, repr(args[-2])), {})[args[-1][1]] = min(body, groups.get((n, repr(args[-2])), {}).get(args[-1][1], body))
    ren = {}
    for (n, i), vs in groups.items():
        for rank, (k, _) in enumerate(sorted(vs.items(), key=lambda kv: kv[1])):
            ren[(n, i, k)] = rank
    if not ren:
        return fams

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] in ("atom", "fn") and x[1] and isinstance(x[1][0], str) and len(x[2]) >= 4:
                n = x[1]
                if n[0].startswith("belong_to_shape_"):
                    n = (n[0][len("belong_to_"):],) + tuple(n[1:])
                base = repr(n)
                a = x[2]
                if n[0].startswith("shape_") and a[-1][0] == "int" and (base, repr(a[-2]), a[-1][1] if isinstance(a[-1][1], int) else None) in ren:
                    a = a[:-1] + (("int", ren[(base, repr(a[-2]), a[-1][1])]),)
                    return (x[0], x[1], tuple(map(go, a)))
            return tuple(go(y) for y in x)
        return x

    return [Family(f.binders, f.guard, go(f.stmt), f.tag, f.src) for f in fams]
