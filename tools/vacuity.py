"""Development aid: obligations of the puzzle types whose hypotheses contradict each other (proved for no reason)."""
import sys
sys.path.insert(0, "/verif")
sys.path.insert(0, "/repo")
from pyvc import match, solvers

old = match.Prover.prove
bad = []


def prove(self, hyps, goals, qgoals=()):
    r = old(self, hyps, goals, qgoals)
    if r[0] == "proved":
        s = self.check(list(hyps), 2000)[0]
        if s == "unsat":
            bad.append(None)
            self.vacuous = True
    return r


match.Prover.prove = prove
for n in sys.argv[1:]:
    try:
        k = len(bad)
        marks = []
        oc = match.Ob.__init__

        def init(self, id, *a, **kw):
            oc(self, id, *a, **kw)
            if len(bad) > len(marks):
                marks.extend([self] * (len(bad) - len(marks)))
        match.Ob.__init__ = init
        bad.clear()
        obs, pr = solvers.verify(n)
        match.Ob.__init__ = oc
        print(n, len(obs), "vacuous", len({id(o) for o in marks}), flush=True)
        for o in list({id(o): o for o in marks}.values())[:int(__import__("os").environ.get("SHOW", "3"))]:
            print("    ", o.id, o.text[:int(__import__("os").environ.get("WIDE","160"))])
    except Exception as e:
        match.Ob.__init__ = oc
        print(n, "EXC", type(e).__name__, e)
