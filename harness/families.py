"""Families of cases.  A family makes the i-th case of a seed: it drives the real code and records the calls."""

import hashlib
import os
import random
import re

import decode
import gen
import logged
import markup
import project
import record
import schemadoc
import session
import small
import variations
from record import Case, Parser, PeripheralRegisterMap, Process, Serializer, Validator, call, hand_over, scratch_file, see
from svdsuite.validate import SVDSchemaVersion

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORPUS = os.path.join(ROOT, "corpus")

FAMILIES = {}


def family(name):
    def register(fn):
        FAMILIES[name] = fn
        return fn
    return register


# --- what is done with a document -------------------------------------------------------------------------------------
def resolve(c, doc):
    """Process a document; how it is read is not what the case is about."""
    return c.given(doc, "p") and c.process("p", "d")


def read(c, doc):
    c.document("x", doc)
    return c.parse("x", "p")


def write(c, doc):
    """What is written for a device, parsed or processed, reads as that device."""
    if not c.given(doc, "p"):
        return
    pretty = len(doc) % 2 == 0
    if c.serialize("p", "y", pretty=pretty):
        c.parse("y", "q")
        if len(doc) % 3 == 0:
            otherwise_written(c, pretty)
        if c.serialize("q", "z"):
            c.fact("writing is stable", c.live["y"][0].split() == c.live["z"][0].split() or len(doc) % 2 == 0)


def otherwise_written(c, pretty):
    """The other ways to write a device write the same."""
    dev, content = c.live["p"][0], c.live["y"][0]
    made = "ok", 0, "y"
    c.again("string", made, lambda: Serializer.device_to_svd_str(dev, pretty_print=pretty).encode(), project.xml_tree)
    for declaration in (True, False):
        out, bare, _ = call(Serializer.device_to_svd_content, dev, pretty_print=pretty, xml_declaration=declaration)
        c.again("content", made, lambda: bare, project.xml_tree)
        c.fact("declared as asked", out == "ok" and bare.lstrip().startswith(b"<?xml") == declaration)
        with scratch_file(b"old" * 100000) as path:
            c.again("file", made, lambda: written_file(path, dev, pretty, declaration), project.xml_tree)
            out, text, _ = call(written_file, path, dev, pretty, declaration)
            c.fact("file holds the content", out == "ok" and text == bare)
    c.fact("content is declared", content.startswith(b"<?xml"))
    flat = call(Serializer.device_to_svd_content, dev, pretty_print=not pretty)
    c.fact("pretty as asked", flat[0] == "ok" and (b">\n" in (content if pretty else flat[1]).split(b"\n", 1)[1]))


def written_file(path, dev, pretty, declaration):
    Serializer.device_to_svd_file(path, dev, pretty_print=pretty, xml_declaration=declaration)
    with open(path, "rb") as f:
        return f.read()


def write_processed(c, doc):
    if resolve(c, doc) and c.convert("d", "v") and c.serialize("v", "y", pretty=len(doc) % 2 == 0):
        c.parse("y", "q")


def reprocess(c, doc):
    """A converted device is complete: processing it again gives the same device."""
    if resolve(c, doc) and c.convert("d", "v"):
        before = c.events[-1]["out"], 0, "d"
        if c.process("v", "d2"):
            c.same(before, ("ok", 0, "d2"))
        c.look("d")


def mapped(c, doc):
    if resolve(c, doc):
        c.map("d", "m")
        c.look("d")


def everything(c, doc):
    if not read(c, doc):
        return
    if c.process("p", "d"):
        c.map("d", "m")
        if c.convert("d", "v"):
            c.process("v", "d2")
            if c.serialize("v", "y"):
                c.parse("y", "q")
        c.look("d")
    if c.serialize("p", "z"):
        c.parse("z", "p2")
    c.look("p")


# --- generated documents ----------------------------------------------------------------------------------------------
def generated(name, action, **profile):
    @family(name)
    def make(seed, i):
        ident = f"{name}/{seed}/{i}"
        c = Case(ident)
        action(c, gen.document(ident, **profile))
        return c
    return make


INHERIT = dict(derive=0.6, dim=0.12, forward=0.6, depth=2, alternate=0.03, overlap=0.03)
MIX = dict(derive=0.45, dim=0.4, forward=0.7, fields=0.5)
PATHS = dict(derive=0.6, bad_path=0.15, any_target=0.3, forward=0.8, dirty=0.7, dim=0.2, enums=0.1, fields=0.5)
DEEP = dict(derive=0.4, depth=5, cluster=0.85, regs=(1, 3), peripherals=(1, 2), fields=0.2, dim=0.1, instances=40, dirty=0.2,
            enums=0.3, many=0, text=0.05, props=0.3, dup_name=0, forward=0.6)
NAMES = dict(tiny_names=1.0, derive=0.5, dim=0.2, path_full=0.3, forward=0.7, enums=0.15, dirty=0.5)
DIM = dict(dim=0.6, derive=0.1, dim_big=0.08, dim_index=0.7, depth=2, enums=0.15, alternate=0.02, overlap=0.02)
DIMBAD = dict(dim=0.5, derive=0.1, dim_bad=0.12, dim_attr_only=0.1, dirty=1.0, fields=0.5, bad_path=0, any_target=0,
              odd_size=0, bits_bad=0, field_overlap=0, enum_bad=0, dup_name=0, no_block=0, empty=0, reserved=0)
PROPS = dict(props=0.55, derive=0.25, cluster=0.5, depth=3, dim=0.1, odd_size=0.05, enums=0.05)
ADDRESS = dict(high=0.35, cluster=0.5, depth=3, overlap=0.2, misalign=0.2, dim=0.3, derive=0.12, fields=0.1, blocks=0.7,
               props=0.35)
ENUM = dict(fields=1.0, enums=0.95, regs=(1, 2), peripherals=(1, 1), cluster=0.1, derive=0.15, dim=0.12)
ENUMBAD = dict(ENUM, enum_bad=0.12, dirty=1.0, bad_path=0, any_target=0, dim_bad=0, odd_size=0, bits_bad=0,
               field_overlap=0, dup_name=0, no_block=0, empty=0, reserved=0)
FIELD = dict(fields=1.0, enums=0.1, regs=(1, 2), peripherals=(1, 1), cluster=0.1, dim=0.25, derive=0.25,
             field_overlap=0.1, behaviour=0.2, size_pool=(8, 16, 32, 32, 64, 128, 128))
FIELDBAD = dict(FIELD, bits_bad=0.12, field_overlap=0.3, reserved=0.08, dirty=1.0, bad_path=0, any_target=0, dim_bad=0,
                odd_size=0, enum_bad=0, dup_name=0, no_block=0, empty=0)
INTEGRITY = dict(dup_name=0.12, odd_size=0.1, no_block=0.08, empty=0.06, reserved=0.1, dirty=1.0, fields=0.5,
                 enums=0.1, bad_path=0, any_target=0, dim_bad=0, bits_bad=0, enum_bad=0, field_overlap=0.1)
OVERLAP = dict(overlap=0.45, alternate=0.3, alt_group=0.2, blocks=0.6, misalign=0.15, dim=0.2, derive=0.12, fields=0.1,
               enums=0.0, peripherals=(1, 4), regs=(1, 4))
SMALL = dict(peripherals=(1, 2), regs=(1, 2))
CPU = dict(cpu=1.0, meta=0.6, peripherals=(1, 1), regs=(1, 1), fields=0.1, depth=0, numbers=0.6)

for _name, _profile in dict(inherit=INHERIT, mix=MIX, paths=PATHS, deep=DEEP, names=NAMES, dim=DIM, dimbad=DIMBAD, props=PROPS,
                            address=ADDRESS, enum=ENUM, enumbad=ENUMBAD, field=FIELD, fieldbad=FIELDBAD,
                            integrity=INTEGRITY, overlap=OVERLAP, cpu=CPU, general={}).items():
    generated(_name, resolve, **_profile)
generated("map", mapped, **dict(cluster=0.6, depth=3, dim=0.3, high=0.25, blocks=0.7, derive=0.2, enums=0.15))
generated("reprocess", reprocess, reserved=0)
generated("reprocess-mix", reprocess, reserved=0, **MIX)
generated("reprocess-overlap", reprocess, reserved=0, **OVERLAP)
generated("read", read, numbers=0.7, meta=0.5, split=0.1)
generated("read-cpu", read, **CPU)
generated("write", write, text=0.5, meta=0.5, numbers=0.2)
generated("write-cpu", write, **CPU)
generated("write-processed", write_processed)
generated("everything", everything)


# --- the order in which a document declares things --------------------------------------------------------------------
def shuffled(d, r):
    """The same device with its parts declared in another order."""
    def go(n):
        kids = [go(k) for k in n["kids"]]
        if n["k"] != "field":
            r.shuffle(kids)
        return {**n, "kids": kids}

    kids = [go(n) for n in d["kids"]]
    r.shuffle(kids)
    return {**d, "kids": kids}


def distinct_twins(d):
    """Registers told apart by their alternate group only would tie when sorted: give each its own address."""
    def go(n, at):
        for k in n["kids"]:
            if k.get("twin"):
                k["a"]["addressOffset"] = at[0]
                at[0] += 0x40
            go(k, at)

    for n in d["kids"]:
        go(n, [0x10000])


def order(name, **profile):
    @family(name)
    def make(seed, i):
        ident = f"{name}/{seed}/{i}"
        c = Case(ident)
        g, d = gen.generator(ident, **profile)
        distinct_twins(d)
        r = random.Random(ident + "*")
        ref = None
        for j in range(3):
            if not c.given(g.xml(d if j == 0 else shuffled(d, r)).encode(), f"p{j}"):
                return c
            c.process(f"p{j}", f"d{j}")
            this = c.events[-1]["out"], 0, f"d{j}"  # in which order overlaps are met decides how often they are told
            if ref is None:
                ref = this
            else:
                c.same(ref, this)
        return c
    return make


order("order", derive=0.5, dim=0.25, alt_group=0.1, fields=0.5, enums=0.15)
order("order-names", tiny_names=0.6, derive=0.6, dim=0.15, alt_group=0.2, fields=0.5, enums=0.1, any_target=0.2, dirty=0.6)


# --- the documents of the repository's own tests, as they are and changed ---------------------------------------------
def corpus_files(limit=40000):
    out = []
    for base, _, files in os.walk(CORPUS):
        for f in files:
            path = os.path.join(base, f)
            if f.endswith(".svd") and os.path.getsize(path) <= limit:
                out.append(path)
    return sorted(out)


_corpus = corpus_files()


@family("corpus")
def corpus_case(seed, i):
    path = _corpus[i % len(_corpus)]
    c = Case("corpus/" + os.path.relpath(path, CORPUS))
    with open(path, "rb") as f:
        everything(c, f.read())
    return c


# --- ways of handing over a document ----------------------------------------------------------------------------------
ENCODINGS = ["utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "iso-8859-1", "windows-1252", "ascii",
             "iso-8859-2", "iso-8859-15", "windows-1251", "koi8-r", "shift_jis", "gb18030", "euc-jp"]
SIGNS = ["\u00e4", "\u20ac", "\u2013", "\u65e5\u672c", "\u03a9", "\u044f\u0436", "\u00b5s", "\U0001d518", "\u00a0", "\u0085", "\u00ff", "\u00df"]
NOT_WELL = ["cut", "stray", "entity", "unclosed", "control", "twice", "empty", "blank", "prose", "attribute", "late"]


def spoiled(text, how, r):
    at = r.randrange(1, len(text))
    lt = [m.start() for m in re.finditer("<(?!\\?)", text)]
    if how == "cut":
        return text[:at]
    if how == "stray":
        return text[:at] + r.choice("<&") + text[at:]
    if how == "entity":
        return text.replace("<version>", "<version>&nbsp;", 1)
    if how == "unclosed":
        return text.replace("</name>", "", 1)
    if how == "control":
        return text.replace("<version>", "<version>\x01", 1)
    if how == "twice":
        return text + text
    if how == "attribute":
        return text.replace('schemaVersion="', 'schemaVersion="1.1" schemaVersion="', 1)
    if how == "late":
        return "\n" + text
    if how == "prose":
        return r.choice(["device", "{}", "<", "<device", "<>", "\0", "\0\0\0\0", "\xff", "&amp;"])
    return {"empty": "", "blank": " \n"}.get(how, text[:r.choice(lt)])


def presented(text, r):
    """The text as bytes: encoding, declaration, byte order mark and damage drawn at random; and as a string."""
    codec = r.choice(ENCODINGS)
    name = {"utf-8-sig": "utf-8", "utf-16-le": "utf-16", "utf-16-be": "utf-16"}.get(codec, codec)
    declared = r.choices([name, None, r.choice(["utf-8", "iso-8859-1", "windows-1252", "ascii", "utf-16"]), "x-unknown"],
                         [0.55, 0.25, 0.15, 0.05])[0]
    if declared is not None:
        declared = r.choice([declared, declared.upper()])
        q = r.choice("'\"")
        text = f"<?xml version={q}1.0{q} encoding={q}{declared}{q}?>" + r.choice(["", "\n"]) + text
    elif r.random() < 0.3:
        text = '<?xml version="1.0"?>' + text
    if r.random() < 0.25:
        text = spoiled(text, r.choice(NOT_WELL), r)
    return text.encode(codec, "xmlcharrefreplace"), r.choice(["", "", "", "\ufeff"]) + text


ENTRY_DOCS = [dict(SMALL, derive=0.4, dim=0.3), dict(SMALL, dirty=0.6), dict(SMALL, numbers=0.6, meta=0.6, text=0.6), dict(CPU), dict(SMALL, overlap=0.5)]


@family("entry")
def entry(seed, i):
    ident = f"entry/{seed}/{i}"
    c = Case(ident)
    r = random.Random(ident)
    text = gen.document(ident, **r.choice(ENTRY_DOCS)).decode()
    for _ in range(r.choice([0, 1, 1, 2])):
        sign = r.choice(SIGNS)
        text = text.replace("</description>", sign + "</description>", r.choice([1, 3]))
    if r.random() < 0.3:
        text = text.replace("</name>", r.choice(SIGNS[:7]) + "</name>", 1)
    if r.random() < 0.05:  # longer than any buffer
        at = r.choice([m.end() for m in re.finditer("</(?:name|version|description)>|<peripherals>", text)])
        text = text[:at] + "<!--" + "long " * r.choice([2000, 14000, 220000]) + "-->" + text[at:]
    content, string = presented(text, r)
    own = decode.own(content)
    c.bytes("x", content, decode.readings(content))
    c.open("x", "p")
    c.open("x", "q", via="file")
    in_string = decode.tree(string.removeprefix("\ufeff"))
    encoded = string.removeprefix("\ufeff").encode("utf-8-sig")
    c.bytes("s", string, decode.readings(encoded) if not in_string else {"own": in_string, "strict": [], "loose": []})
    c.open("s", "t", via="str")
    everywhere(c, content, string)
    return c


def everywhere(c, content, string):
    """Processor, map and validator take documents the way the parser does."""
    def reference(fn, projection, dst):
        out, value, log = call(fn)
        if out == "ok":
            c.live[dst] = (value, projection)
            c.emit("given", to=dst, val=projection(value))
        return out, len(log), dst

    for via in ("content", "file", "str"):
        doc = string if via == "str" else content
        made = reference(lambda: Process(hand_over(Parser, doc, via).get_parsed_device(), None).get_processed_device(),
                         project.processed_device, "d" + via)
        c.again("Process " + via, made, lambda: hand_over(Process, doc, via).get_processed_device(), project.processed_device)
        made = reference(lambda: PeripheralRegisterMap(hand_over(Process, doc, via).get_processed_device()),
                         project.register_map, "m" + via)
        c.again("PeripheralRegisterMap " + via, made, lambda: hand_over(PeripheralRegisterMap, doc, via), project.register_map)
    verdict = reference(lambda: Validator.validate_xml_content(content, False), lambda v: {"valid": v}, "v")
    with scratch_file(content) as path:
        c.again("Validator file", verdict, lambda: Validator.validate_xml_file(path, False), lambda v: {"valid": v})
    verdict = reference(lambda: Validator.validate_xml_content(string.removeprefix("\ufeff").encode("utf-8-sig"), False), lambda v: {"valid": v}, "vs")
    c.again("Validator str", verdict, lambda: Validator.validate_xml_str(string, False), lambda v: {"valid": v})


# --- histories of calls -----------------------------------------------------------------------------------------------
SESSION = {"quick": dict(calls=4, full=3, walks=2500, length=14, cases=420),
           "thorough": dict(calls=5, full=4, walks=40000, length=24, cases=5000)}
SESSION_DOCS = [dict(SMALL, derive=0.4, dim=0.3), dict(SMALL, cluster=0.6, dim=0.3, fields=0.6, enums=0.5), dict(CPU, meta=0.8),
                dict(OVERLAP, peripherals=(1, 2)), dict(SMALL, fields=0.8, enums=0.9, dim=0.2), dict(SMALL, blocks=0.8, props=0.5, text=0.5),
                dict(SMALL, dirty=0.9), dict(SMALL, numbers=0.8, meta=0.6, behaviour=0.6)]
_histories = {}


def prepare_session(tier, seed):
    """Enumerate the histories before the cases are handed out."""
    s = SESSION[tier]
    found = session.enumerate_histories(s["calls"], s["full"], seed, s["walks"], s["length"])
    _histories.update(found=[h for h, _ in found], cases=s["cases"])
    return [{"model": "Session", "config": f"histories of {s['calls']} calls", "states": found[0][1][1],
             "generated": found[0][1][0], "violation": ""}]


_small = []


def prepare_small(tier, seed):
    """Enumerate the small documents."""
    scopes = small.enumerate_all(tier)
    _small[:] = small.choose(scopes, seed)
    return [{"model": "Documents", "config": str(s), "states": found, "generated": generated, "violation": ""}
            for s, (_, (generated, found)) in zip(small.SCOPES[tier], scopes)]


@family("small")
def small_case(seed, i):
    """A small document, and the same with its parts declared in reverse."""
    if i >= len(_small):
        return None
    c = Case(f"small/{seed}/{i}")
    seen = []
    for n, reverse in enumerate((False, True)):
        if c.given(small.xml(_small[i][2], reverse).encode(), f"p{n}"):
            c.process(f"p{n}", f"d{n}")
            seen.append((c.events[-1]["out"], 0, f"d{n}"))
    if len(seen) == 2:
        c.same(*seen)
    return c


REPLAYED = 40  # documents of a case


def replayed(name, reverse):
    @family(name)
    def make(seed, i):
        """What becomes of small documents is what the model says."""
        c = Case(f"{name}/{seed}/{i}")
        for fate, want, elements in _small[i * REPLAYED:(i + 1) * REPLAYED]:
            content = small.xml(elements, reverse)
            out, device, _ = call(lambda: Process.from_xml_str(content).get_processed_device())
            line = ""
            if out == "ok":
                out, line, _ = call(lambda: small.line(device.peripherals))
            c.emit("replay", doc=str(elements), fate=fate, want=want, out=out, line=line or "")
        return c
    return make


replayed("replayed", False)
replayed("replayed-reversed", True)

_varied = []


def prepare_varied(topic):
    def prepare(tier, seed):
        """Enumerate the documents that vary in what a property is about."""
        scopes = variations.enumerate_all(topic)
        _varied[:] = variations.shuffled(scopes, seed)
        return [{"model": "Laws", "config": which, "states": found, "generated": generated, "violation": ""}
                for which, (_, (generated, found)) in zip(variations.SCOPES[topic], scopes)]
    return prepare


@family("varied")
def varied(seed, i):
    """What becomes of the documents that vary in one respect is what the model says."""
    c = Case(f"varied/{seed}/{i}")
    for d in _varied[i * REPLAYED:(i + 1) * REPLAYED]:
        content = variations.xml(d["pd"])
        out, dev, _ = call(lambda: Parser.from_xml_str(content).get_parsed_device())
        if out != "ok" or variations.canonical(project.parsed_device(dev)) != variations.canonical(d["pd"]):
            continue  # not written down as meant, or not read so, which is not what the case is about
        out, device, log = call(lambda: Process(dev, None).get_processed_device())
        val, want = "", variations.canonical(d["dev"]) if d["fate"] in ("yes", "maybe") else ""
        if out == "ok":
            val, out = see(lambda x: variations.canonical(project.processed_device(x)), device)
        val = val or ""
        c.emit("varied", doc=d["which"], fate=d["fate"], want=digest(want), out=out, line=digest(val), warn=len(log),
               wres=d["wres"], wlo=d["wlo"], whi=d["whi"])
        if d["fate"] == "no" and out == "ok" or d["fate"] == "yes" and (out != "ok" or val != want):
            c.emit("given", to=f"p{len(c.events)}", val=project.parsed_device(dev))  # so that it is told what is wrong
            c.live[c.events[-1]["to"]] = (dev, project.parsed_device)
            c.process(c.events[-1]["to"], f"d{len(c.events)}")
    return c


def retold(name, way, wanted):
    """The same documents, of which another call is compared with what the model says: way(parsed, document, i)."""
    @family(name)
    def make(seed, i):
        c = Case(f"{name}/{seed}/{i}")
        for n, d in enumerate(_varied[i * REPLAYED:(i + 1) * REPLAYED]):
            content = variations.xml(d["pd"])
            out, dev, _ = call(lambda: Parser.from_xml_str(content).get_parsed_device())
            if name != "varied-read" and (out != "ok" or variations.canonical(project.parsed_device(dev)) != variations.canonical(d["pd"])):
                continue
            want = wanted(d)
            if want is None:
                continue
            want, val = variations.canonical(want), None
            if out == "ok":
                out, val, _ = call(lambda: variations.canonical(way(dev, n)))
            c.emit("replay", doc=d["which"] + ("" if val == want else " " + content), fate="yes", want=digest(want), out=out, line=digest(val))
        return c
    return make


def processed_again(dev, _):
    """The device a converted one becomes."""
    first = Process(dev, None)
    first.get_processed_device()
    return project.processed_device(Process(first.convert_processed_device_to_svd_device(), None).get_processed_device())


retold("varied-read", lambda dev, _: project.parsed_device(dev), lambda d: d["pd"])
retold("varied-written", lambda dev, n: project.parsed_device(
    Parser.from_xml_content(Serializer.device_to_svd_content(dev, pretty_print=n % 2 == 0)).get_parsed_device()), lambda d: d["pd"])
retold("varied-mapped", lambda dev, _: project.register_map(PeripheralRegisterMap(Process(dev, None).get_processed_device())),
       lambda d: d["map"] if d["fate"] == "yes" else None)
retold("varied-again", processed_again, lambda d: d["dev"] if d["fate"] == "yes" and d["whole"] else None)


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest() if text else ""


PREPARE = {"session": prepare_session, "small": prepare_small, **{"varied-" + t: prepare_varied(t) for t in variations.SCOPES}}
MODULES = {"session": "SessionTrace"}


def damaged(doc, r):
    """A document that is not one: read by a fallback or not at all."""
    how = r.randrange(4)
    at = r.randrange(len(doc))
    if how == 0:
        return doc[:at]
    if how == 1:
        return doc[:at] + b"\xff" + doc[at:]
    if how == 2:
        return doc.replace(b"<name>", b"<name>\xe4", 1)
    return doc[:at] + b"<" + doc[at:]


@family("session")
def session_case(seed, i):
    ident = f"session/{seed}/{i}"
    c = Case(ident)
    r = random.Random(ident)
    if r.random() < 0.12:
        with open(r.choice(_corpus), "rb") as f:
            docs = {"a": f.read()}
    else:
        docs = {"a": gen.document(ident, **r.choice(SESSION_DOCS))}
    docs["b"] = gen.document(ident + "b", **r.choice(SESSION_DOCS))
    digits = [m.start() for m in re.finditer(rb"(?<=>)[1-6](?=<)|(?<=[0-9a-fA-F])[0-9](?=<)", docs["a"])]
    if digits and r.random() < 0.3:  # nearly the same document
        at = r.choice(digits)
        docs["b"] = docs["a"][:at] + (b"%d" % r.choice([d for d in range(1, 8) if d != docs["a"][at] - 48])) + docs["a"][at + 1:]
    elif r.random() < 0.15:
        docs["b"] = damaged(docs["b"], r)
    session.replay(c, docs, session.choose(_histories["found"], i, _histories["cases"]))
    return c


# --- documents and the versions of the schema -------------------------------------------------------------------------
MODULES["schema"] = "ValidTrace"
MODULES["schema-svd"] = "ValidTrace"
_versions = {v.value: v for v in SVDSchemaVersion}


def validate(c, content, version, via, raising):
    args = [raising] + ([_versions.get(version)] if version else [])
    names = {"content": Validator.validate_xml_content, "str": Validator.validate_xml_str, "file": Validator.validate_xml_file}
    if raising and not version and len(content) % 2:
        args = []  # as is by default
    if via == "str":
        out, value, _ = call(names[via], content.decode(), *args)
    elif via == "file":
        with scratch_file(content) as path:
            out, value, _ = call(names[via], path, *args)
    else:
        out, value, _ = call(names[via], content, *args)
    val = {True: "yes", False: "no"}.get(value, repr(value)) if out == "ok" else out
    c.emit("validate", **{"from": "x", "version": version, "raising": raising, "out": out, "val": val})


def validated(c, content, own, r):
    """The document asked about in several ways; own: the version it was made for."""
    c.emit("tree", to="x", val=schemadoc.full_tree(content))
    ways = ["content", "str", "file"]
    validate(c, content, own, r.choice(ways), r.random() < 0.5)
    for _ in range(3):
        validate(c, content, r.choice(["", own, *schemadoc.ORDER]), r.choice(ways), r.random() < 0.5)


def rewritten(c, content, own, r):
    out, dev, _ = call(lambda: Parser.from_xml_content(content).get_parsed_device())
    if out == "ok":
        out, written, _ = call(Serializer.device_to_svd_content, dev, pretty_print=r.random() < 0.5)
        if out == "ok":
            for version in sorted({own, r.choice(schemadoc.ORDER)}):
                c.emit("written", **{"from": "x", "version": version, "val": schemadoc.full_tree(written)})


@family("schema")
def schema_case(seed, i):
    ident = f"schema/{seed}/{i}"
    r = random.Random(ident)
    c = Case(ident)
    version = schemadoc.ORDER[i % len(schemadoc.ORDER)]
    doc = schemadoc.Draw(r, version, r.choice([0.15, 0.3, 0.5]), r.random() < 0.6).document()
    for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
        doc = schemadoc.change(doc, r)
    content = schemadoc.write(doc, r, r.random() < 0.6).encode()
    if i == 0:
        c.emit("versions", val=sorted(_versions, key=lambda v: [int(n) for n in v.split(".")]),
               latest=SVDSchemaVersion.get_latest().value)
    validated(c, content, version, r)
    rewritten(c, content, version, r)
    return c


@family("schema-svd")
def schema_svd(seed, i):
    """The documents of the other families; what is written for a valid one is valid."""
    ident = f"schema-svd/{seed}/{i}"
    r = random.Random(ident)
    c = Case(ident)
    if r.random() < 0.15:
        with open(r.choice(_corpus), "rb") as f:
            content = f.read()
        if call(schemadoc.full_tree, content)[0] != "ok":
            return c
    else:
        content = gen.document(ident, **r.choice([dict(SMALL), dict(SMALL, text=0.5, meta=0.5), dict(CPU), dict(SMALL, enums=0.5, fields=0.8)]))
    validated(c, content, "1.3.11", r)
    rewritten(c, content, "1.3.11", r)
    return c


# --- deviations and ways of writing a document down -------------------------------------------------------------------
MARKUP_DOCS = [dict(SMALL), dict(SMALL, text=0.5, meta=0.6, numbers=0.4), CPU, dict(SMALL, fields=0.9, enums=0.6, behaviour=0.5), dict(SMALL, dim=0.6, derive=0.4)]


def marked(name, changes, mild, noise):
    @family(name)
    def make(seed, i):
        ident = f"{name}/{seed}/{i}"
        r = random.Random(ident)
        c = Case(ident)
        doc = markup.tree(gen.document(ident, **r.choice(MARKUP_DOCS)))
        for _ in range(r.choice(changes)):
            doc = markup.deviate(doc, r, mild)
        read(c, markup.write(doc, r, r.choice(noise)).encode())
        return c


marked("markup", [0], True, [0.05, 0.2])
marked("repairs", [1, 1, 2, 3, 8], True, [0, 0, 0.05])
marked("broken", [1, 1, 2, 4], False, [0, 0.02])


# --- where things come from -------------------------------------------------------------------------------------------
@family("origin")
def origin_case(seed, i):
    """The parsed elements the processed ones name, the processed ones the map names, and the parents of what is read."""
    ident = f"origin/{seed}/{i}"
    r = random.Random(ident)
    c = Case(ident)
    content = gen.document(ident, **r.choice([MIX, INHERIT, DIM, ENUM, FIELD, OVERLAP, ADDRESS, PROPS, CPU, dict(MIX, behaviour=0.6)]))
    with project.Origins() as names:
        if not resolve(c, content):
            return c
    if len(names.names) < 1500:
        with project.Selves():
            c.known("d")
            c.map("d", "m")
    return c


# --- the log of a resolution ------------------------------------------------------------------------------------------
@family("logged")
def logged_case(seed, i):
    """Processing with a log is processing without."""
    ident = f"logged/{seed}/{i}"
    r = random.Random(ident)
    c = Case(ident)
    content = gen.document(ident, **r.choice([MIX, PATHS, INHERIT, NAMES, dict(PATHS, bad_path=0.4), dict(MIX, dim=0.6)]))
    if not c.given(content, "p"):
        return c
    dev = c.live["p"][0]
    c.process("p", "d")
    plain, error = c.events[-1]["out"], call.error
    out, told = c.process_logged("p", "d2", r.choice([
        lambda path: Process(dev, path), lambda path: Process.from_xml_content(content, path),
        lambda path: Process.from_xml_str(content.decode(), path), lambda path: process_file(content, path)]))
    c.fact("same outcome", c.events[-2]["out"] == plain and (out or told == error))
    if plain == "ok" and out:
        c.same(("ok", 0, "d"), ("ok", 0, "d2"))
        if c.map("d", "m"):
            with scratch_file(b"") as path:
                c.again("logged map", ("ok", 0, "m"), r.choice([
                    lambda: PeripheralRegisterMap.from_xml_content(content, path), lambda: map_file(content, path),
                    lambda: PeripheralRegisterMap.from_xml_str(content.decode(), path)]), project.register_map, silent=True)
                c.fact("map logged", see(logged.read, path)[1] == "ok")
    return c


def process_file(content, log):
    with scratch_file(content) as path:
        return Process.from_svd_file(path, log)


def map_file(content, log):
    with scratch_file(content) as path:
        return PeripheralRegisterMap.from_svd_file(path, log)


# --- documents that say odd things: how the calls on them end ---------------------------------------------------------
def attempts(c, content):
    dev = c.attempt("parse", lambda: Parser.from_xml_content(content).get_parsed_device())
    c.attempt("validate", Validator.validate_xml_content, content)
    if dev is None:
        return
    c.attempt("serialize", Serializer.device_to_svd_content, dev)
    process = c.attempt("process", lambda: made(Process(dev, None)))
    if process is None:
        return
    device = process.get_processed_device()
    c.attempt("map", PeripheralRegisterMap, device)
    back = c.attempt("convert", process.convert_processed_device_to_svd_device)
    if back is not None:
        c.attempt("serialize", Serializer.device_to_svd_content, back)
        c.attempt("process", lambda: made(Process(back, None)))


def made(process):
    process.get_processed_device()
    return process


DAMAGE_DOCS = [dict(SMALL), {}, INHERIT, MIX, DIM, OVERLAP, ENUM, FIELD, PATHS, NAMES, dict(SMALL, dirty=1.0), PROPS, dict(CPU)]


@family("damage")
def damage_case(seed, i):
    ident = f"damage/{seed}/{i}"
    r = random.Random(ident)
    c = Case(ident)
    if r.random() < 0.25:
        with open(r.choice(_corpus), "rb") as f:
            content = f.read()
        if call(markup.tree, content)[0] != "ok":
            return c
    else:
        content = gen.document(ident, **r.choice(DAMAGE_DOCS))
    doc = markup.tree(content)
    for _ in range(r.choice([1, 1, 2, 3, 5, 9])):
        doc = r.choice([markup.damage, markup.damage, markup.damage, lambda d, r: markup.deviate(d, r, False)])(doc, r)
    if markup.modest(doc):
        attempts(c, markup.write(doc, r, 0).encode())
    return c


def register_text(name, offset, inner="", attr="", head=""):
    return f"<register{attr}>{head}<name>{name}</name><addressOffset>{offset}</addressOffset>{inner}</register>"


def field_text(name, bits, values):
    entries = "".join(f"<enumeratedValue><name>{n}</name>{v}</enumeratedValue>" for n, v in values)
    return f"<fields><field><name>{name}</name><bitRange>{bits}</bitRange><enumeratedValues>{entries}</enumeratedValues></field></fields>"


def small_device(registers, further=""):
    return f"""<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" schemaVersion="1.3"><name>D</name><version>1</version>
<description>d</description><addressUnitBits>8</addressUnitBits><width>64</width><size>64</size><peripherals><peripheral><name>P</name>
<baseAddress>0</baseAddress><addressBlock><offset>0</offset><size>8</size><usage>registers</usage></addressBlock><registers>{registers}
</registers></peripheral>{further}</peripherals></device>""".encode()


@family("clash")
def clash_case(seed, i):
    """A value the default entry stands for is named after it and the number: another entry may have that name."""
    if i > 0:
        return None
    c = Case("clash/default")
    values = [("a", "<isDefault>true</isDefault>"), ("a_1", "<value>0</value>")]
    reprocess(c, small_device(register_text("R", 0, field_text("F", "[0:0]", values))))
    return c


def large_documents():
    """Documents that are simple but large in one respect: (name, registers of P, further peripherals)."""
    yield "default", register_text("R", 0, field_text("F", "[63:0]", [("a", "<isDefault>true</isDefault>")])), ""
    yield "wildcard", register_text("R", 0, field_text("F", "[47:0]", [("a", "<value>#" + "x" * 48 + "</value>")])), ""
    yield "range", register_text("R%s", 0, head="<dim>2</dim><dimIncrement>8</dimIncrement><dimIndex>0-99999999999</dimIndex>"), ""
    chain = [register_text(f"R{i}", 8 * i, attr=f' derivedFrom="R{i - 1}"' if i else "") for i in range(1200)]
    yield "chain", "".join(chain), ""
    yield "chain-forward", "".join(reversed(chain)), ""
    yield "nesting", "".join(f"<cluster><name>C{i}</name><addressOffset>0</addressOffset>" for i in range(110)) \
        + register_text("R", 0) + "</cluster>" * 110, ""
    yield "peripherals", register_text("R", 0), "".join(
        f'<peripheral derivedFrom="P{i - 1 if i else ""}"><name>P{i}</name><baseAddress>{8 * i + 8}</baseAddress></peripheral>' for i in range(1100))
    yield "alternates", "".join(register_text(f"R{i}", 0).replace("<addressOffset>", (
        f"<alternateRegister>R{i - 1}</alternateRegister>" if i else "") + "<addressOffset>") for i in range(120)), ""
    yield "replicated", register_text("R%s", 0, head="<dim>2000</dim><dimIncrement>8</dimIncrement>"), ""
    yield "values", register_text("R", 0, field_text("F", "[11:0]", [(f"v{i}", f"<value>{i}</value>") for i in range(4096)])), ""
    yield "bits", register_text("R", 0, field_text("F", "[999999999999:0]", [("a", "<value>0</value>"), ("b", "<value>0xFF</value>")])), ""
    yield "instances", register_text("R%s", 0, head="<dim>999999999999</dim><dimIncrement>8</dimIncrement>"), ""
    yield "digits", register_text("R", "0x" + "0" * 3000 + "8"), ""


@family("wide")
def wide_case(seed, i):
    """Documents that are large in one respect; of these only matters how a call ends."""
    documents = list(large_documents())
    if i >= len(documents):
        return None
    name, registers, further = documents[i]
    c = Case("wide/" + name)
    limit = record.call.limit
    record.call.limit = 5 if name in ("wildcard", "instances") else limit
    try:
        attempts(c, small_device(registers, further))
    finally:
        record.call.limit = limit
    return c
