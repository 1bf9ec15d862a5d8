"""Contract of the registry of puzzle types (C23).

Assumed: pkgutil.iter_modules([d]) lists the importable files of directory d; importing d.<file> runs that file;
Solver.__subclasses__() then holds the classes those files define (one per solver file).
"""
import importlib
import pkgutil

from pyvc.outcomes import *

DIR = T("dir")
FIELDS = ("name", "category", "aliases", "examples", "parameters")


class File(Ext):
    def attr(self, run, name):
        if name == "name":
            return T("filename", "file")
        if name == "ispkg":
            return False
        raise Unsupported(f"ModuleInfo.{name}")


class Cls(Ext):
    """An arbitrary solver class; it is defined in file `filename(class)` of the directory."""

    def __eq__(self, o):
        return isinstance(o, Cls)

    def __hash__(self):
        return 1

    def attr(self, run, name):
        if name == "__module__":
            return cat([DIR, ".", T("filename", "class")])
        raise Unsupported(f"class attribute {name}")

    def invoke(self, run, args, kw):
        if args or kw:
            raise Unsupported("construction with arguments")
        return run.callee("construct", T("instance", self))

    def __repr__(self):
        return "class"


class Module(Ext):
    """A registered solver."""

    def __init__(self, term):
        self.term = term

    def __eq__(self, o):
        return isinstance(o, Module) and same(o.term, self.term)

    def __hash__(self):
        return 2

    def attr(self, run, name):
        if name in FIELDS:
            return T("field", self.term, name)
        if name in ("solve", "refine"):
            return PyFn(lambda r, a, k: r.callee(name, T(name, self.term, *a, *k.values())), name)
        raise Unsupported(f"Solver.{name}")

    def __repr__(self):
        return f"module {self.term}"


class Board(Ext):
    def __eq__(self, o):
        return isinstance(o, Board)

    def __hash__(self):
        return 3

    def attr(self, run, name):
        if name == "puzzle_name":
            return T("requested")
        raise Unsupported(f"Puzzle.{name}")

    def __repr__(self):
        return "puzzle"


class Registry(SDict):
    """name -> solver, for any set of names."""

    def __init__(self):
        super().__init__([Each(T("registered"), [(T("key"), Module(T("key")))])], 0)

    def lookup(self, k):
        return Module(T("lookup", k))


def iter_modules(run, args, kw):
    v = args[0] if args else kw.get("path")
    if len(args) + len(kw) != 1 or not isinstance(v, SList) or not same(v.segs, [DIR]):
        raise Unsupported("iter_modules of another directory")
    return SList([Each(T("files"), [File()])], len(run.loops))


def do_import(run, args, kw):
    run.callee("import", None)
    run.event("import", args[0])
    return T("module", args[0])


def subclasses(run, args, kw):
    run.event("subclasses")
    return SList([Each(T("classes"), [Cls()])], len(run.loops))


def setup(run):
    import builtins

    from noqx import manager

    def put(o, v):
        run.natives[id(o)] = (o, v)

    put(pkgutil.iter_modules, PyFn(iter_modules, "iter_modules"))
    put(builtins.__import__, PyFn(do_import, "__import__"))
    put(importlib.import_module, PyFn(do_import, "import_module"))
    run.nattrs[id(manager.Solver), "__subclasses__"] = PyFn(subclasses, "__subclasses__")
    run.registry = Registry()
    put(manager.modules, run.registry)


def key_facts(run):
    """Membership questions answered on this path: [(key text, answer)]."""
    return [(k, v) for k, v in run.facts.items() if k.startswith("in(")]


def load_obligations(p):
    run = p.run
    first = run.failures[0] if run.failures else None
    key = T("filename", "class")
    asked = dict((k.split(", ")[0], v) for k, v in key_facts(run)) if key_facts(run) else {}
    present = any(v for k, v in run.facts.items() if k.startswith(f"in({key!r},"))
    absent = any(not v for k, v in run.facts.items() if k.startswith(f"in({key!r},"))
    del asked
    if p.kind == "raise":
        if first is not None:
            return [("a file that cannot be loaded is reported", p.value is first or isinstance(p.value, Exc), "")]
        return [("only a name that is taken makes loading fail", present, f"raises {p.value}")]
    out = [("no failure is swallowed", first is None, f"{first} is swallowed")]
    if first is not None:
        return out
    want = [Each(T("registered"), [(T("key"), Module(T("key")))]), Each(T("classes"), [(key, T("instance", Cls()))])]
    out.append(("each class is registered once, as its own instance, under the name of its file", same(run.registry.segs, want), f"registry {run.registry.segs!r}"))
    out.append(("a name that is taken is not registered again", absent and not present, "registered without asking whether the name is taken"))
    full = cat([DIR, ".", T("filename", "file")])
    imports = [e for e in run.trace if e[0] == "for each" and any(x[0] == "import" for x in e[2])]
    subs = [i for i, e in enumerate(run.trace) if e[0] == "subclasses"]
    ok = len(imports) == 1 and [x for x in imports[0][2] if x[0] == "import"] and all(same(x[1], full) for x in imports[0][2] if x[0] == "import")
    src = imports[0][1] if imports else None
    ok = ok and isinstance(src, T) and (same(src, T("files")) or src.head == "sorted" and same(src.args[0], T("files")))
    out.append(("every file of the directory is loaded", bool(ok) and bool(subs) and run.trace.index(imports[0]) < subs[0], f"loads {imports!r}"))
    return out


def metadata_obligations(p):
    k = T("key")
    want = SDict([Each(T("registered"), [(k, SDict([(f, T("field", k, f)) for f in FIELDS]))])])
    if p.kind != "return":
        return [("the listing never fails", False, f"raises {p.value}")]
    v = p.value
    if isinstance(v, SDict):
        for s in v.segs:
            if isinstance(s, Each):
                for _, d in s.vals:
                    if isinstance(d, SDict) and not any(isinstance(x, Each) for x in d.segs):
                        d.segs.sort(key=lambda x: FIELDS.index(x[0]) if x[0] in FIELDS else 9)
    return [("every registered type is listed once with its own fields", same(v, want), f"lists {v!r}"),
            ("the registry is left as it is", same(p.run.registry.segs, Registry().segs), "changes the registry")]


def generate_obligations(p):
    first = p.run.failures[0] if p.run.failures else None
    mod = lambda t: T("solve", t, Board())
    if p.kind == "raise":
        known = any(v for k, v in p.run.facts.items() if k.startswith("in("))
        return [("fails only as the solver fails, or for an unknown type", p.value is first if first is not None else not known and issubclass(p.value.cls, Exception), f"raises {p.value}")]
    return [("the program is the one of the solver registered under the requested name", first is None and same(p.value, mod(T("lookup", T("requested")))), f"returns {p.value!r}")]
