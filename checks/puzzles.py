"""C17-C21: every puzzle type of a category generates exactly the program its contract demands."""
from . import solvercheck


def run(r, cat):
    names = solvercheck.names_of([cat])
    r.extra["puzzle_types"] = len(names)
    solvercheck.check(r, names)
