"""Development aid: run checks against edited copies of the repository.
FILE defines MUTS = {id: dict(edits=[(file, old, new)], checks="C01 C02", expect="caught"|"quiet")}."""
import concurrent.futures
import os
import runpy
import shutil
import subprocess
import sys

muts = runpy.run_path(sys.argv[1])["MUTS"]
ids = sys.argv[2:] or list(muts)


def one(i):
    m = muts[i]
    d = f"/tmp/w/mut/{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "node_modules", "penpa-edit*", "__pycache__"))
    os.makedirs(f"{d}/penpa-edit")
    for f, old, new in m["edits"]:
        p = f"{d}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = []
    for c in m["checks"].split():
        r = subprocess.run(["./check", c], cwd="/verif", capture_output=True, text=True, env={**os.environ, "VERIF_REPO": d, "VERIF_EVIDENCE": f"{d}/ev", "VERIF_TIER": "quick"})
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        out.append((c, r.returncode, " ".join(v), "" if r.returncode in (0, 1) else r.stderr[-600:], r.stdout.splitlines()[-1:] if r.returncode == 0 else ""))
    shutil.rmtree(d, ignore_errors=True)
    return i, out


with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for i, out in ex.map(one, ids):
        want = muts[i].get("expect", "caught")
        for c, rc, v, err, tail in out:
            ok = (rc == 1) if want == "caught" else (rc == 0)
            print("ok  " if ok else "BAD ", i, c, "rc", rc, v[-90:], err, tail if want == "quiet" else "", flush=True)
