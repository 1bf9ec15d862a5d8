"""Symbolic execution of Solver.solve(puzzle) for an arbitrary puzzle."""
import ast
import importlib
import sys

import z3

from .values import *
from . import values as V
from .interp import Interp, PyRaise, SRange
from .frame import Frame, to_text

MAPS = {"text": Val, "symbol": StrSort, "surface": ColSort, "edge": z3.BoolSort(), "line": z3.BoolSort()}


def sym_puzzle(name, parameters):
    from noqx.puzzle import Puzzle

    class SymPuzzle(Puzzle):
        pass

    p = object.__new__(SymPuzzle)
    p.puzzle_name = name
    p.content = z3.Const("content", StrSort)
    p.row, p.col = z3.Int("row"), z3.Int("col")
    p.margin = tuple(z3.Int(f"margin{i}") for i in range(4))
    for m, s in MAPS.items():
        setattr(p, m, SDict(m, s))
    sp = SParam()
    sp.types, sp.options = {}, {}
    for k, d in (parameters or {}).items():
        sp.types[k] = d.get("type", "text")
        if sp.types[k] == "select":
            ds = d.get("default")
            sp.options[k] = list(ds) if isinstance(ds, (list, tuple, dict)) else list(d.get("options", [ds]))
    p.param = sp
    return p


PRE = [z3.Int("row") >= 1, z3.Int("col") >= 1] + [z3.Int(f"margin{i}") >= 0 for i in range(4)]


def full_bfs_contract(it, args, kw):
    """full_bfs by its contract (property C09): the rooms depend only on size and edges, the clue cells also on clues."""
    names = ["rows", "cols", "edges", "clues"]
    a = dict(zip(names, args))
    a.update(kw)
    rows, cols = lift(it.force(a["rows"])), lift(it.force(a["cols"]))
    e = a["edges"]
    if not isinstance(e, SDict):
        raise Unsupported("full_bfs on other edges")
    e = it.settle_map(e)
    cl = a.get("clues")
    key = f"bfs[{e.name}]"
    if cl is None:
        return Areas(key, (rows, cols), None)
    if not isinstance(cl, SDict):
        raise Unsupported("full_bfs with other clues")
    return Areas(key, (rows, cols), cl.name)


def fill_num_contract(it, args, kw):
    """fill_num by its contract (property C11): the pool denotes exactly the numbers of the range."""
    a = dict(zip(["_range", "_type", "_id", "color"], args))
    a.update(kw)
    r = a["_range"]
    if not isinstance(r, SRange) or r.step != 1:
        return NotImplemented
    color = a.get("color")
    part = "" if color is None else rope("; ", color, "(R, C)")
    if it.decide(lift(r.lo) < lift(r.hi)):
        pool = rope(to_text(it, r.lo), "..", to_text(it, it.binop(ast.Sub(), r.hi, 1)))
    else:
        pool = ""
    head = rope("{ number(R, C, (", pool, "))", part, " } = 1 :- ")
    t = a.get("_type", "grid")
    if t == "grid":
        return rope(head, "grid(R, C).")
    if t == "area":
        return rope(head, "area(", to_text(it, a.get("_id", "A")), ", R, C).")
    raise PyRaise(("ValueError", "Invalid type, must be one of 'grid', 'area'."))


OVERRIDES = {"noqx.rule.helper.full_bfs": full_bfs_contract, "noqx.rule.common.fill_num": fill_num_contract}


class Path:
    """One path of the function: condition, outcome, value/exception, loop-conditional raises."""

    def __init__(self, pc, kind, value, raises, survivors=(), raise_pcs=None):
        self.pc, self.kind, self.value, self.raises = pc, kind, value, raises
        self.survivors = list(survivors)
        self.raise_pcs = [[] for _ in raises] if raise_pcs is None else raise_pcs  # what holds where it is raised

    @property
    def branch(self):
        """The choices of the path, without the conditions that only say that it did not raise before."""
        skip = {x.get_id() for x in self.survivors}
        return [x for x in self.pc if x.get_id() not in skip]


def path_of(pc, kind, value, reg):
    rs = [e for e in reg.effects if e.kind == "raise"]
    return Path(list(pc), kind, value, [e.payload for e in rs], reg.survivors, [list(e.guard) for e in rs])


def run_paths(fn, args, interp=None, pre=()):
    """fn(it) executes something; returns list of Path."""
    it = interp or Interp(axioms=list(pre), overrides=OVERRIDES)
    outs, effs = it.explore(lambda: fn(it))
    paths = []
    for pc, kind, value, reg in outs:
        paths.append(path_of(pc, kind, value, reg))
    return it, paths


def solver_class(name):
    mod = importlib.import_module(f"solver.{name}")
    from noqx.manager import Solver
    for o in vars(mod).values():
        if isinstance(o, type) and issubclass(o, Solver) and o is not Solver and o.__module__ == mod.__name__:
            return o
    raise KeyError(name)


def run_solver(name, fuel=2000000):
    cls = solver_class(name)
    puzzle = sym_puzzle(name, cls.parameters)

    def body(it):
        pz = sym_puzzle(name, cls.parameters)
        it.keep.append(pz)
        obj = it.construct(cls, [], {})
        return it.call(getattr(cls, "solve"), [obj, pz], {})

    it = Interp(axioms=PRE, overrides=OVERRIDES, fuel=fuel)
    return run_paths(body, [], it)
