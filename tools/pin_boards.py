"""Decode the stored examples of all puzzle types into /verif/data/boards.json (run by hand; the result is committed)."""
import json
import sys

sys.path[:0] = ["/verif", "/repo"]
import os

os.chdir("/repo")
from noqx import manager
from pyvc.concrete import dump

manager.load_solvers("solver")
out = {}
for name, m in sorted(manager.modules.items()):
    bs = []
    for ex in m.examples:
        if "data" not in ex:
            continue
        param = {k: v.get("default") for k, v in m.parameters.items()}
        for k in param:
            if isinstance(param[k], (list, tuple, dict)):
                param[k] = list(param[k])[0]
        param.update({k: v for k, v in ex.get("config", {}).items()})
        p = manager.prepare_puzzle(name, ex["data"], param)
        bs.append(dump(p))
    out[name] = bs
json.dump(out, open("/verif/data/boards.json", "w"), separators=(",", ":"), sort_keys=True)
print({k: len(v) for k, v in out.items()})
