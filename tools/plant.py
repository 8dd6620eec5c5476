"""plant.py <definition.py>: makes seeded/<id>/ from a definition and confirms it in a scratch copy.

A definition file sets BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "4c1f06c"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if False else None

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    work = tempfile.mkdtemp(prefix="plant")
    repo = work + "/repo"
    sh(f"cp -a /repo {repo}")
    try:
        bad = None
        for file, old, new in b["edits"]:
            p = f"{repo}/src/svdsuite/{file}"
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{file}: {s.count(old)} matches of {old[:60]!r}"; break
            base = sh(f"git -C {repo} show {BASE}:src/svdsuite/{file}").stdout
            if not all(l in base.splitlines() for l in []):
                pass
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "EDIT FAILS", bad); continue
        d = f"{ROOT}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        diff = sh(f"git -C {repo} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=src exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        good = sh(f"sh {d}/demo.sh", cwd="/repo")
        broken = sh(f"sh {d}/demo.sh", cwd=repo)
        t = sh(f"PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={repo}/src timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x -n 8 tests || PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={repo}/src timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests", cwd=repo)
        tail = t.stdout.strip().splitlines()[-1:] 
        ok = good.returncode == 0 and broken.returncode not in (0,) and t.returncode == 0
        print(b["id"], b["property"], "OK" if ok else "NOT OK", "good", good.returncode, "broken", broken.returncode, (broken.stderr.strip().splitlines() or [""])[-1][:150], tail)
        if not ok:
            print(good.stderr[-600:]); print(t.stdout[-500:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
