"""Runs TLC: on recorded traces (Conform.tla) and on the models themselves."""

import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))


class TlcError(Exception):
    """TLC gave no answer."""


def run(module, config=None, env=None, workers=1, options=(), limit_s=600, heap="2g"):
    """The output of one TLC run; the metadata goes to a scratch directory."""
    meta = tempfile.mkdtemp(prefix="svdtlc")
    argv = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
            "-XX:TieredStopAtLevel=4", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta,
            "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", config or module + ".cfg", *options, module + ".tla"]
    try:
        done = subprocess.run(argv, cwd=SPEC, env={**os.environ, **(env or {})}, capture_output=True, text=True,
                              timeout=limit_s)
        return done.returncode, done.stdout + done.stderr
    except subprocess.TimeoutExpired as exc:
        raise TlcError(f"{module}: no answer in {limit_s} s") from exc
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def model(module, behaviour, constants, invariants=(), properties=(), **kw):
    """Run TLC on a model for the given constants."""
    fd, path = tempfile.mkstemp(prefix="svdmodel", suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write(f"SPECIFICATION {behaviour}\nCHECK_DEADLOCK FALSE\n")
        f.writelines(f"CONSTANT {k} = {v}\n" for k, v in constants.items())
        f.writelines(f"INVARIANT {i}\n" for i in invariants)
        f.writelines(f"PROPERTY {p}\n" for p in properties)
    try:
        return run(module, path, **kw)
    finally:
        os.unlink(path)


def conform(cases, module="Conform", limit_s=300):
    """Check recorded cases against the trace specification.

    cases: list of {"id", "events"}.  Returns (violations, steps): violations as dictionaries, one per failed clause.
    """
    fd, path = tempfile.mkstemp(prefix="svdtrace", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump({"cases": cases}, f)
    try:
        code, out = run(module, env={"SVD_TRACE": path}, limit_s=limit_s)
    finally:
        os.unlink(path)
    bad = []
    consumed = None
    for line in out.splitlines():
        line = line.strip().strip('"')
        if line.startswith("BAD|"):
            _, case, event, op, clause, rest = line.split("|", 5)
            where, _, key = rest.rpartition("|")
            bad.append({"case": case, "event": int(event), "op": op, "clause": clause, "where": where, "key": key})
        elif line.startswith("CONSUMED|"):
            _, n, m = line.split("|")
            consumed = (int(n), int(m))
    if consumed is None or consumed[0] != consumed[1]:
        raise TlcError("trace not consumed: " + _excerpt(out))
    return bad, consumed[1]


def statistics(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def _excerpt(out):
    lines = out.splitlines()
    first = next((i for i, l in enumerate(lines) if "rror" in l), max(0, len(lines) - 20))
    return "\n".join(lines[first:first + 12])[:1500]
