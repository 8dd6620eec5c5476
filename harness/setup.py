"""Checks that the tools are there and that every module of the specification parses."""

import glob
import os
import subprocess
import sys

import tlc

for path in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
    done = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", os.path.basename(path)], cwd=tlc.SPEC,
                          capture_output=True, text=True)
    if done.returncode != 0 or "*** Errors" in done.stdout:
        print(done.stdout[-2000:])
        sys.exit(1)
print("specification parsed")
