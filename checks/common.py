"""What every check shares: paths, evidence, findings, verdict."""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")  # overridden only when developing, to try planted bugs in parallel
VERIF = "/verif"
EVIDENCE = os.environ.get("VERIF_EVIDENCE", f"{VERIF}/evidence")
for p in ("/opt/venv/lib/python3.12/site-packages", ):
    if p not in sys.path:
        sys.path.append(p)
for p in (REPO, VERIF):
    if p not in sys.path:
        sys.path.insert(0, p)

SEED = int(os.environ.get("VERIF_SEED", "1"))
WORKERS = min(8, os.cpu_count() or 8)


def tier():
    if "--thorough" in sys.argv:
        return "thorough"
    return os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick"


class Report:
    """Outcome of one check."""

    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.obligations = 0
        self.discharged = 0
        self.by = {}  # back end -> discharged obligations
        self.solver_calls = 0
        self.solver_s = 0.0
        self.functions = []  # under contract, all obligations discharged
        self.bounded = []  # decided by bounded comparison only (name, why, cases, bound)
        self.bounded_cases = 0
        self.open = []  # obligations not discharged (text)
        self.assumptions = []
        self.violations = []  # dict(key, what, replay, found)
        self.extra = {}
        self.samples = []
        self.errors = []

    def add(self, n, ok, backend, calls=0, secs=0.0):
        self.obligations += n
        self.discharged += ok
        if ok:
            self.by[backend] = self.by.get(backend, 0) + ok
        self.solver_calls += calls
        self.solver_s += secs

    def violation(self, key, what, replay, found):
        self.violations.append({"key": key, "what": what, "replay": replay, "found": found})

    def assume(self, *xs):
        for x in xs:
            if x not in self.assumptions:
                self.assumptions.append(x)


def findings():
    """Known findings: {(property, key): text}."""
    out = {}
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" | ")
                prop, key = head.split(" ", 1)
                out[(prop.removeprefix("property="), key.removeprefix("key="))] = text.strip()
    return out


def finish(r, level):
    """Write the evidence and replay files, print the verdict, return the exit code."""
    os.makedirs(f"{EVIDENCE}/replay", exist_ok=True)
    known = findings()
    fresh = []
    for v in r.violations:
        k = (r.prop, v["key"])
        if k in known:
            print(f"KNOWN-FINDING: property={r.prop} {known[k]}")
        else:
            fresh.append(v)
    for i, v in enumerate(fresh[:20]):
        path = f"{EVIDENCE}/replay/{r.prop}-{i}.json"
        with open(path, "w") as f:
            json.dump({"property": r.prop, "key": v["key"], "what": v["what"], **v["replay"]}, f, indent=1, default=str)
        v["path"] = path
    cov = {
        "obligations": r.obligations,
        "discharged": r.discharged,
        "checker_cmd": f"/verif/check {r.prop}" + (" --thorough" if tier() == "thorough" else ""),
        "trusted_base": TRUSTED,
        "discharged_by": r.by,
        "solver_calls": r.solver_calls,
        "solver_seconds": round(r.solver_s, 1),
        "functions_under_contract": len(r.functions),
        "functions": r.functions,
        "not_discharged": r.open[:40],
        "bounded_not_proved": r.bounded,
        "evaluations": r.bounded_cases,
        "explanation": "obligations are generated from /repo's current source on this run and discharged one by one; "
        "what is listed under bounded_not_proved was only compared on the stated number of concrete inputs",
        "samples": r.samples[:12],
        **r.extra,
    }
    ev = {"property": r.prop, "tier": tier(), "seed": SEED, "level": level, "coverage": cov, "assumptions": r.assumptions,
          "wall_s": round(time.time() - r.t0, 2), "violations": len(fresh)}
    with open(f"{EVIDENCE}/{r.prop}.json", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{r.prop}: {r.discharged}/{r.obligations} obligations discharged, {len(r.functions)} functions under contract, "
          f"{len(r.bounded)} bounded, {r.bounded_cases} native comparisons, {ev['wall_s']} s")
    if r.errors:
        for e in r.errors[:5]:
            print("error:", e, file=sys.stderr)
        if not fresh:
            return 3
    if r.obligations == 0 and r.bounded_cases == 0:
        print("error: nothing was checked", file=sys.stderr)
        return 3
    for v in fresh[:20]:
        print(f"  {v['what']}")
        print(f"VIOLATION property={r.prop} replay={v['path']}" + ("" if v["found"] else " no-failing-input-found"))
    return 1 if fresh else 0


TRUSTED = [
    "pyvc (this repository's verification-condition generator: symbolic execution of the parsed source of /repo, /verif/pyvc)",
    "z3 4.8.12+ (python bindings), which discharges the first-order obligations",
    "CPython's ast module as the meaning of source text; Python integers are unbounded as in the proofs",
]
BOARD_ASSUME = [
    "a decoded board is a finite map as promised by the decoder's contract (property C02): surface and line entries at cell centres, line labels u/d/l/r (hashi: with _1/_2), edges TOP/LEFT/diagonal",
    "full_bfs is used through its contract (property C09): a partition of the board into rooms, with a clue cell per room",
    "parameters have the types the front end sends: booleans for checkboxes, one of the options for selections, text otherwise",
    "string methods of opaque clue texts (split, isdigit, int) are uninterpreted functions, the same on both sides of an obligation",
]
