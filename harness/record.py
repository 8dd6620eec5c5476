"""Drives the real code through its public interface and records the calls as a trace for Conform.tla."""

import copy
import io
import os
import signal
import sys
import tempfile
import warnings

sys.path.insert(0, os.environ.get("SVD_SRC", "/repo/src"))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"  # never run a stale compilation of the code under test

import logged  # noqa: E402
import project  # noqa: E402
import svdsuite  # noqa: E402
from svdsuite import Parser, PeripheralRegisterMap, Process, Serializer, Validator  # noqa: E402

CALL_LIMIT_S = 30


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def call(fn, *args, **kw):
    """(outcome, value, warnings) of a call; warnings as a list of (category, text)."""
    call.error = ""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        signal.alarm(call.limit)
        try:
            value, out = fn(*args, **kw), "ok"
        except Hang:
            value, out = None, "timeout"
            call.limit = 5  # one call that does not end is enough: waste no time on the next ones
        except RecursionError:
            value, out = None, "RecursionError"
        except Exception as exc:  # the outcome is what is recorded
            value, out = None, type(exc).__name__
            call.error = str(exc)
        finally:
            signal.alarm(0)
    return out, value, [(w.category.__name__, str(w.message)) for w in log]


def see(projection, value):
    """The projection of a value; a value that is not of the promised shape is an outcome of its own."""
    out, shape, _ = call(projection, value)
    return (shape, "ok") if out == "ok" else (None, "misshapen")


call.limit = CALL_LIMIT_S


class Case:
    """One case: the calls made, and the live objects by handle."""

    def __init__(self, ident):
        self.id = ident
        self.events = []
        self.live = {}  # handle -> (object, projection function)

    def emit(self, op, **kw):
        self.events.append({"op": op, **kw})

    def fact(self, what, holds):
        self.emit("fact", what=what, holds=bool(holds))

    def _result(self, op, src, dst, fn, projection, ignored="", **kw):
        out, value, log = call(fn)
        log = [w for w in log if w[0] != ignored]
        ev = {"from": src, "out": out, "warn": len(log), "kinds": sorted({kind for kind, _ in log})}
        shape = None
        if out == "ok":
            shape, ev["out"] = see(projection, value)
            out = ev["out"]
        if out == "ok":
            self.live[dst] = (value, projection)
            ev.update(to=dst, val=shape)
            if projection is project.parsed_device:
                ev["parents"] = project.broken_parents(value)
        elif projection is project.parsed_device:
            ev["parents"] = 0
        self.emit(op, **ev, **kw)
        return out == "ok"

    def document(self, dst, content, encoding=None):
        self.live[dst] = (content, None)
        self.emit("document", to=dst, val=project.xml_tree(content, encoding))

    def parse(self, src, dst, via="content"):
        content = self.live[src][0]
        return self._result("parse", src, dst, lambda: hand_over(Parser, content, via).get_parsed_device(),
                            project.parsed_device)

    def bytes(self, dst, content, readings):
        self.live[dst] = (content, None)
        self.emit("bytes", to=dst, val=readings)

    def open(self, src, dst, via="content"):
        content = self.live[src][0]
        return self._result("open", src, dst, lambda: hand_over(Parser, content, via).get_parsed_device(),
                            project.parsed_device)

    def again(self, what, reference, fn, projection, silent=False):
        """Another way to the result of earlier calls: reference = (outcome, warnings, handle)."""
        out, value, log = call(fn)
        ev = {"what": what, "from": reference[2], "out": out, "warn": reference[1] if silent else len(log), "out2": reference[0],
              "warn2": reference[1]}
        if out == "ok":
            ev["val"], ev["out"] = see(projection, value)
        self.emit("again", **ev)

    def given(self, content, dst):
        """A parsed device the case starts from; reading it is not what the case is about."""
        out, dev, _ = call(lambda: Parser.from_xml_content(content).get_parsed_device())
        if out != "ok":
            return False
        self.live[dst] = (dev, project.parsed_device)
        self.emit("given", to=dst, val=project.parsed_device(dev))
        return True

    def known(self, handle):
        """What an object of the case is, told anew."""
        obj, projection = self.live[handle]
        self.emit("given", to=handle, val=projection(obj))

    def process(self, src, dst):
        dev = self.live[src][0]
        holder = {}

        def run():
            holder["p"] = Process(dev, None)
            return holder["p"].get_processed_device()

        ok = self._result("process", src, dst, run, project.processed_device)
        if ok:
            self.live[dst + ".process"] = (holder["p"], None)
        return ok

    def process_logged(self, src, dst, make):
        """Process as make does it, given a path, and read the log that is there afterwards."""
        with scratch_file(b"old" * 50000) as path:
            holder = {}

            def run():
                holder["p"] = make(path)
                return holder["p"].get_processed_device()

            ok = self._result("process", src, dst, run, project.processed_device, ignored="ParserWarning")
            error = call.error
            page, out = see(logged.read, path)
        self.emit("log", **{"from": src, "process": self.events[-1]["out"], "out": out, **({"val": page} if page else {})})
        return ok, error

    def convert(self, src, dst):
        proc = self.live[src + ".process"][0]
        return self._result("convert", src, dst, proc.convert_processed_device_to_svd_device, project.parsed_device)

    def map(self, src, dst):
        dev = self.live[src][0]
        return self._result("map", src, dst, lambda: PeripheralRegisterMap(dev), project.register_map)

    def serialize(self, src, dst, pretty=False):
        dev = self.live[src][0]
        out, value, log = call(Serializer.device_to_svd_content, dev, pretty_print=pretty)
        ev = {"from": src, "out": out, "warn": len(log)}
        if out == "ok":
            tree, ev["out"] = see(project.xml_tree, value)
            out = ev["out"]
        if out == "ok":
            self.live[dst] = (value, None)
            ev.update(to=dst, val=tree)
        self.emit("serialize", **ev)
        return out == "ok"

    def attempt(self, what, fn, *args):
        """A call of which only matters how it ends."""
        out, value, _ = call(fn, *args)
        self.emit("attempt", what=what, out=out)
        return value if out == "ok" else None

    def look(self, handle):
        obj, projection = self.live[handle]
        if projection is not None:
            self.emit("look", **{"from": handle, "val": see(projection, obj)[0] or {}})

    def same(self, a, b):
        """Two calls, (outcome, warnings, handle), that have to have had the same result."""
        self.emit("same", **{"from": a[2], "from2": b[2], "out": a[0], "out2": b[0], "warn": a[1], "warn2": b[1]})


def hand_over(cls, content, via, *args):
    """An object of the class for a document: bytes, or a string for via "str"."""
    if via == "content":
        return cls.from_xml_content(content, *args)
    if via == "str":
        return cls.from_xml_str(content if isinstance(content, str) else content.decode(), *args)
    with scratch_file(content) as path:
        return cls.from_svd_file(path, *args)


class scratch_file:
    last = "?"

    def __init__(self, content):
        self.content = content

    def __enter__(self):
        fd, self.path = tempfile.mkstemp(prefix="svdverif", suffix=".svd")
        os.write(fd, self.content)
        os.close(fd)
        scratch_file.last = self.path
        return self.path

    def __exit__(self, *_):
        os.unlink(self.path)
