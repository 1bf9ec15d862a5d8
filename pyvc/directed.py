"""Searching an answer of one program that another one does not admit.

The second program is turned into a check of the first one's answers: its hidden predicates are renamed, its constraints
(and what it demands of shown atoms) derive a violation, and the solver is asked for an answer with a violation.  A hit is
only a candidate (the renamed copy may guess hidden atoms); the caller confirms it against the unchanged second program.
"""
from clingo import ast
from clingo.ast import ASTType as T
from clingo.ast import Transformer, parse_string

VIOL = "viol__"


class _Rename(Transformer):
    def __init__(self, shown):
        self.shown = shown

    def visit_SymbolicAtom(self, a):
        f = a.symbol
        if f.ast_type == T.Function and (f.name, len(f.arguments)) not in self.shown and f.name != VIOL:
            return a.update(symbol=f.update(name=f.name + "__b"))
        return a


def _sig(atom):
    if atom.ast_type == T.SymbolicAtom and atom.symbol.ast_type == T.Function:
        return atom.symbol.name, len(atom.symbol.arguments)
    return None


def checker(text, shown):
    """The checking program for `text` over the shown predicates, or None when it has statements out of reach."""
    out, bad = [f"#defined {VIOL}/0.", f":- not {VIOL}."], []
    for p, k in shown:
        vs = ", ".join(f"X{i}" for i in range(k))
        a = f"({vs})" if k else ""
        out.append(f"#defined sup__{p}/{k}.\n{VIOL} :- {p}{a}, not sup__{p}{a}.\n#defined {p}/{k}.")
    ren = _Rename(shown)

    def rule(head, body):
        out.append(head + (" :- " + "; ".join(body) if body else "") + ".")

    def one(s):
        if s.ast_type in (T.Program, T.ShowSignature, T.ShowTerm):
            return
        if s.ast_type == T.Defined:
            out.append(f"#defined {s.name}__b/{s.arity}.")
            return
        if s.ast_type != T.Rule:
            bad.append(str(s))
            return
        body = [str(ren.visit(b)) for b in s.body]
        h = s.head
        if h.ast_type == T.Literal:
            if h.atom.ast_type == T.BooleanConstant:
                rule(VIOL, body)
                return
            sig = _sig(h.atom)
            atom = str(ren.visit(h.atom))
            if h.sign == ast.Sign.Negation:
                rule(VIOL, body + [atom])
            elif sig in shown:
                rule(VIOL, body + [f"not {atom}"])
                rule(f"sup__{atom}", body)
            else:
                rule(atom, body)
            return
        if h.ast_type == T.Aggregate:
            inner = [e for e in h.elements]
            sigs = {_sig(e.literal.atom) for e in inner}
            txt = str(ren.visit(h))
            if sigs & shown:
                if not sigs <= shown:
                    bad.append(str(s))
                    return
                for e in inner:
                    rule(f"sup__{ren.visit(e.literal)}", body + [str(ren.visit(c)) for c in e.condition])
                if h.left_guard is not None or h.right_guard is not None:
                    rule(VIOL, body + [f"not {txt}"])
            else:
                out.append(txt + (" :- " + "; ".join(body) if body else "") + ".")
            return
        bad.append(str(s))

    try:
        parse_string(text, one, logger=lambda *_: None)
    except RuntimeError:
        return None
    return None if bad else "\n".join(out)
