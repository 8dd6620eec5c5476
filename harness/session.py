"""Replays the histories TLC enumerates from Session.tla into the real library.

Run as a program it is the reference: it evaluates one term at a time, each in a process forked for it alone.
"""

import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

import project
import record
import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
MAKES = {"p": "parsed", "ps": "parsed", "pf": "parsed", "r": "parser", "d": "processing", "D": "processing", "l": "processing",
         "c": "parsed", "m": "map", "M": "map", "w": "text", "W": "text", "F": "text", "v": "verdict", "V": "verdict"}


FULL = "rDMlFV"


def sign(op):
    return {"ps": "s", "pf": "f"}.get(op, op)


CALLS = {"s": "ps", "f": "pf"}


_folder = None  # the files of all calls have the same names


def file_of(content, suffix=".svd"):
    path = os.path.join(_folder, "device" + suffix)
    with open(path, "wb") as f:
        f.write(content)
    return path


class folder:
    """Makes the folder the files are put in, and removes it."""

    def __enter__(self):
        global _folder
        _folder = tempfile.mkdtemp(prefix="svdverif")

    def __exit__(self, *_):
        shutil.rmtree(_folder)


def fingerprint(value):
    return hashlib.sha1(json.dumps(value, sort_keys=True).encode()).hexdigest()[:20]


def view(kind, obj):
    """What a user sees of an object."""
    if kind in ("doc", "text"):
        return obj.decode("latin-1")
    if kind == "verdict":
        return obj
    if kind == "parser":
        return view("parsed", obj.get_parsed_device())
    if kind == "parsed":
        return [project.parsed_device(obj), project.broken_parents(obj)]
    if kind == "processing":
        return project.processed_device(obj.get_processed_device())
    return project.register_map(obj)


def seen(kind, obj):
    shape, out = record.see(lambda o: view(kind, o), obj)
    return fingerprint(shape) if out == "ok" else out


def perform(op, obj):
    if op == "p":
        return record.Parser.from_xml_content(obj).get_parsed_device()
    if op == "ps":
        return record.Parser.from_xml_str(obj.decode()).get_parsed_device()
    if op == "pf":
        return record.Parser.from_svd_file(file_of(obj)).get_parsed_device()
    if op == "r":
        return record.Parser.from_xml_content(obj)
    if op == "d":
        return record.Process(obj, None)
    if op == "l":
        return record.Process(obj, file_of(b"", ".html"))
    if op == "D":
        return record.Process.from_xml_content(obj)
    if op == "M":
        return record.PeripheralRegisterMap.from_xml_content(obj)
    if op == "F":
        path = file_of(b"old")
        record.Serializer.device_to_svd_file(path, obj)
        with open(path, "rb") as f:
            return f.read()
    if op == "V":
        return record.Validator.validate_xml_file(file_of(obj), get_exception=True)
    if op == "c":
        return obj.convert_processed_device_to_svd_device()
    if op == "m":
        return record.PeripheralRegisterMap(obj.get_processed_device())
    if op in ("w", "W"):
        return record.Serializer.device_to_svd_content(obj, pretty_print=op == "W")
    if op == "v":
        return record.Validator.validate_xml_content(obj, get_exception=False)
    raise ValueError(op)


LISTS = ("peripherals", "registers_clusters", "registers", "fields", "enumerated_value_containers", "enumerated_values",
         "address_blocks", "interrupts", "regions")


def edit(kind, obj):
    """The user's change: every list turned round, every description extended, addresses moved."""
    done = set()

    def go(x):
        if x is None or id(x) in done:
            return
        done.add(id(x))
        if isinstance(getattr(x, "description", None), str):
            x.description += "!"
        if type(getattr(x, "base_address", None)) is int:
            x.base_address += 0x10000000
        for name in LISTS:
            items = getattr(x, name, None)
            if isinstance(items, list):
                for item in items:
                    go(item)
                items.reverse()
        for name in ("cpu", "sau_regions_config", "dim_array_index"):
            go(getattr(x, name, None))
        constraint = getattr(x, "write_constraint", None)
        if constraint is not None:
            constraint.write_as_read = not constraint.write_as_read

    go(obj.get_processed_device() if kind == "processing" else obj)


def call(op, obj):
    """(record of the call, object it made)"""
    out, value, log = record.call(perform, op, obj)
    log = [text.replace(_folder, "FOLDER") for text in [text for _, text in log] + [record.call.error]]
    val = ""
    if out == "ok":
        shape, out = record.see(lambda o: view(MAKES[op], o), value)
        val = fingerprint(shape) if out == "ok" else ""
    return {"out": out, "warn": fingerprint(log), "val": val}, value if out == "ok" else None


def evaluate(docs, term):
    """The result of a term, made in as few calls as can be."""
    if term in docs:
        return {"out": "ok", "warn": "", "val": ""}, docs[term], "doc"
    op, inner = CALLS.get(term[0], term[0]), term[2:-1]
    result, obj, kind = evaluate(docs, inner)
    if result["out"] != "ok":
        return {"out": "no source", "warn": "", "val": ""}, None, None
    if op == "e":
        edit(kind, obj)
        return {"out": "ok", "warn": "", "val": seen(kind, obj)}, obj, kind
    result, obj = call(op, obj)
    return result, obj, MAKES[op]


# --- the reference ----------------------------------------------------------------------------------------------------
def alone(docs, term):
    """evaluate() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, json.dumps(evaluate(docs, term)[0]).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def serve():
    with folder():
        for line in sys.stdin:
            job = json.loads(line)
            docs = {k: v.encode("latin-1") for k, v in job["docs"].items()}
            print(json.dumps({t: alone(docs, t) for t in job["terms"]}), flush=True)


_server = None


def reference(docs, terms):
    """Results of terms, from an interpreter started for it (with another hash seed)."""
    global _server
    if _server is None:
        _server = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE,
                                   stdout=subprocess.PIPE, text=True,
                                   env={**os.environ, "PYTHONHASHSEED": str(os.getpid() % 1000 + 1)})
    _server.stdin.write(json.dumps({"docs": {k: v.decode("latin-1") for k, v in docs.items()}, "terms": terms}) + "\n")
    _server.stdin.flush()
    return json.loads(_server.stdout.readline())


# --- histories --------------------------------------------------------------------------------------------------------
def enumerate_histories(calls, full, seed, walks, length):
    """All histories of so many basic calls, of so many calls of any kind, and random ones of the given length, as TLC tells them."""
    out = []
    walk = ("-simulate", f"num={walks}", "-seed", str(seed), "-depth", str(length + 1))
    for most, ops, options in ((calls, "Basic", ()), (full, "Full", ()), (length, "Full", walk)):
        fd, path = tempfile.mkstemp(prefix="svdcfg", suffix=".cfg")
        with os.fdopen(fd, "w") as f:
            f.write(f"SPECIFICATION Spec\nCONSTANTS MaxCalls = {most} Least = {most}\nCONSTANT Ops <- {ops}\nINVARIANT Sound\nINVARIANT Told\n"
                    + ("" if options else "PROPERTY Frozen\n") + "CHECK_DEADLOCK FALSE\n")
        try:
            code, text = tlc.run("Session", path, workers=1 if options else 4, options=options)
        finally:
            os.unlink(path)
        if code != 0:
            raise tlc.TlcError("Session: " + text[-600:])
        found = {}
        for line in text.splitlines():
            if line.startswith('"HIST'):
                history = tuple((op, int(n)) for op, n in re.findall(r'<<\\?"(\w+)\\?", (\d+)>>', line))
                found[history[:-1] if options else history] = history  # the steps a walk could end with are all told
        out.append((sorted(found.values()), tlc.statistics(text)))
    return out


def terms_of(history):
    objs = ["a", "b"]
    out = []
    for op, n in history:
        t = f"{sign(op)}({objs[n - 1]})"
        out.append(t)
        if op == "e":
            objs[n - 1] = t
        else:
            objs.append(t)
    return out


def replay(case, docs, histories):
    """Record the histories, each call followed by a look at every object held."""
    terms = sorted({t for h in histories for t in terms_of(h)})
    for t, r in reference(docs, terms).items():
        case.emit("ref", t=t, **r)
    with folder():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 1
            try:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    for h in histories:
                        json.dump(run(docs, h), f)
                        f.write("\n")
                status = 0
            finally:
                os._exit(status)
        os.close(w)
        with os.fdopen(r) as f:
            for line in f:
                case.events += json.loads(line)
        if os.waitpid(pid, 0)[1]:
            case.emit("crash")


def run(docs, history):
    objs = [("doc", docs["a"]), ("doc", docs["b"])]
    events = [{"op": "begin", "a": seen(*objs[0]), "b": seen(*objs[1])}]

    def look():
        return [seen(k, o) if o is not None else "" for k, o in objs]

    for op, n in history:
        kind, obj = objs[n - 1]
        if obj is None:
            if op != "e":
                objs.append((None, None))
            events.append({"op": "skip", "call": op, "of": n})
            continue
        if op == "e":
            edit(kind, obj)
            now = look()
            events.append({"op": "edit", "of": n, "out": "ok", "warn": "", "val": now[n - 1], "seen": now})
            continue
        result, made = call(op, obj)
        objs.append((MAKES[op], made))
        events.append({"op": "call", "call": op, "of": n, **result, "seen": look()})
    return events


def choose(histories, i, of):
    """The part of the histories that falls to case i of so many."""
    basic, full, walks = histories
    full = [h for h in full if any(op in FULL for op, _ in h)]  # the others begin a basic one
    share = list(basic[i % of::of]) + list(full[i % of::of])
    random.Random(i).shuffle(share)
    return share + list(walks[i % of::of])


if __name__ == "__main__":
    serve()
