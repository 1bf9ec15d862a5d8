"""Development tool: make and validate planted bugs.

python3 tools/seed.py FILE [ID...]   FILE defines SEEDS = {id: dict(property, edits=[(file, old, new)], needs, breaks, demo)}
Writes /verif/seeded/<id>/ after confirming in a scratch copy that the bug compiles, passes the stable tests and is shown by its demo;
then runs the property's check on the scratch copy and prints whether it is caught.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
'''


def sh(cmd, cwd, env=None, t=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env={**os.environ, **(env or {})})
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(sid, s):
    out = f"/verif/seeded/{sid}"
    tmp = f"/tmp/seed/{sid}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs("/tmp/seed", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", tmp], check=True)
    stage = f"/tmp/seed/{sid}.d"
    shutil.rmtree(stage, ignore_errors=True)
    os.makedirs(stage)
    open(f"{stage}/demo.py", "w").write(PRE + s["demo"])
    open(f"{stage}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{stage}/demo.sh", 0o755)
    rc, o = sh(f"bash {stage}/demo.sh", tmp, t=300)
    if rc:
        return f"{sid}: demo fails on the unchanged tree: {o[-400:]}"
    for f, old, new in s["edits"]:
        t = open(f"{tmp}/{f}").read()
        if t.count(old) != 1:
            return f"{sid}: {t.count(old)} matches of {old!r} in {f}"
        open(f"{tmp}/{f}", "w").write(t.replace(old, new))
    rc, diff = sh("git diff", tmp)
    rc, o = sh(f"bash {stage}/demo.sh", tmp, t=300)
    if rc == 0:
        return f"{sid}: demo does not fail with the change"
    demo = o.strip().splitlines()[-1][:160] if o.strip() else ""
    res = f"{sid}: demo ok ({demo})"
    if "--notest" not in sys.argv:
        rc, o = sh("PYTHONPATH= PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests", tmp)
        if rc:
            return res + f"; TESTS FAIL {o[-500:]}"
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(stage, out)
    open(f"{out}/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    os.makedirs(f"/tmp/seed/{sid}.ev", exist_ok=True)
    rc, o = sh(f"/verif/check {s['property']}", "/verif", {"VERIF_REPO": tmp, "VERIF_EVIDENCE": f"/tmp/seed/{sid}.ev", "VERIF_SEED": "1"})
    v = [x for x in o.splitlines() if x.startswith(("VIOLATION", "  "))]
    res += f"; check {s['property']} rc={rc} {'CAUGHT' if rc == 1 and any('VIOLATION' in x for x in v) else 'MISSED'}: " + " || ".join(v)[:400] + ("" if rc in (0, 1) else o[-300:])
    for d in (tmp, stage, f"/tmp/seed/{sid}.ev"):
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = [a for a in sys.argv[2:] if not a.startswith("--")]
    todo = {k: v for k, v in seeds.items() if not want or k in want}
    with ThreadPoolExecutor(4) as ex:
        for x in ex.map(lambda kv: one(*kv), todo.items()):
            print(x, flush=True)


main()
