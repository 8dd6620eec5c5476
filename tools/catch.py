"""catch.py [ids...]: runs the quick check of each seeded bug's property against a scratch copy with the bug."""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:]] or sorted(os.listdir(ROOT + "/seeded"))
verif = tempfile.mkdtemp(prefix="catch")
subprocess.run(f"cp -a {ROOT}/harness {ROOT}/spec {ROOT}/corpus {ROOT}/known_findings.txt {verif}/", shell=True, check=True)
for b in ids:
    meta = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
    work = tempfile.mkdtemp(prefix="bug")
    try:
        subprocess.run(f"cp -a /repo/src {work}/src && cd {work} && patch -s -p1 < {ROOT}/seeded/{b}/patch.diff", shell=True, check=True)
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", verif + "/harness/check.py", meta["property"]], capture_output=True, text=True,
                           env={**os.environ, "SVD_SRC": work + "/src", "VERIF_SEED": "1"})
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        detail = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
        print(b, meta["property"], "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", f"{time.time() - t:.0f}s",
              r.stdout.strip().splitlines()[-1:], detail, r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
shutil.rmtree(verif, ignore_errors=True)
