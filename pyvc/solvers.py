"""Solver.solve(puzzle) of one puzzle type against its contract, for every puzzle."""
import importlib

from . import loops, match
from .interp import Interp
from .run import OVERRIDES, PRE, Path, run_paths, run_solver, solver_class, sym_puzzle

CATS = ("shade", "loop", "num", "region", "var")


def contract_of(name):
    for c in CATS:
        m = importlib.import_module(f"specs.{c}")
        f = getattr(m, name + "_", None) or getattr(m, name, None)
        if f is not None and getattr(f, "__module__", "") == m.__name__:
            return f
    return None


def run_spec(name, fuel=2000000):
    from specs import lib

    f = contract_of(name)
    params = solver_class(name).parameters

    def body(it):
        pz = sym_puzzle(name, params)
        it.keep.append(pz)
        return it.call(lib.contract, [f, pz], {})

    it = Interp(axioms=PRE, overrides=OVERRIDES, fuel=fuel)
    it, paths = run_paths(body, [], it)
    for p in paths:
        if p.kind == "normal":
            p.value = dict(zip(("rule", "clue", "mark", "show"), p.value))
    return it, paths


def verify(name, roles=None):
    """Obligations of one puzzle type; roles: only those about statements of these roles (all outcomes included)."""
    loops.forget()
    _, rp = run_solver(name)
    _, sp = run_spec(name)
    return match.compare(name, rp, sp, PRE, roles)
