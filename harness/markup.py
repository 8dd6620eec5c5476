"""Other documents made from a document: changes of what it says, and of nothing but how it is written down."""

import copy
import re

import schemadoc

XSI = schemadoc.XSI
BLANKS = [" ", "\n", "\t", "  ", "\r", "\u00a0", "\n      ", "\u2003", "\u0085"]
ACCESS = ["read-only", "READ-ONLY", "Read-Write", "read/write", "write", "read", "READ", "ReadOnly", "writeOnce", "WRITEONCE", "read-writeonce",
          "readwrite", "none", "rw", "read write", "write-onlY"]
LITERALS = schemadoc.ODD + ["0b101", "0B11", "0o17", "017", "1_000", "+5", "-5", "0x", "#", "#1", "#0x1", "++1", "1e3", "0xG", " 7 ", "\u0661",
                            "True", "FALSE", "2", "tRuE", "0x10", "0X10", "99999999999999999999", "00", "0x00", "0_1", "0b2", "08", "1.0", "12abc",
                            "CM0PLUS", "cm0+", "CM0_PLUS", "cm4", "Other", "selectable", "BIG", "uint8_t*", "readWrite", "read-write", "any", "c", "n"]
WRAPPERS = {"registers", "fields", "peripherals", "cpu", "addressBlock", "interrupt", "enumeratedValues", "writeConstraint", "range", "dimArrayIndex",
            "sauRegionsConfig", "enumeratedValue"}


def tree(content):
    n = schemadoc.full_tree(content)
    for m in schemadoc.nodes(n):
        if m["c"]:
            m["x"] = ""
    return n


def deviate(doc, r, mild):
    """One deviation somewhere in the document; mild: of those the parser repairs."""
    every = list(schemadoc.nodes(doc))
    leaves = [m for m in every if not m["c"]]
    inner = [m for m in every if m["c"]]
    how = r.choice(["pad", "pad", "pad", "blank", "repeat", "repeat", "access", "location", "drop", "shuffle", "unknown", "stray", "attr", "padattr"]
                   + ([] if mild else ["literal", "literal", "literal", "literal", "drop", "drop", "noattr", "wrap", "wrap", "case", "nest", "attrvalue", "move",
                                       "empty", "namespace"]))
    if not inner:
        return doc
    leaf, n = r.choice(leaves), r.choice(inner)
    if how == "pad":
        leaf["x"] = r.choice(["", *BLANKS]) + leaf["x"] + r.choice(["", *BLANKS])
    elif how == "blank":
        leaf["x"] = r.choice(["", *BLANKS])
    elif how == "repeat":
        parent = r.choice(inner)
        kid = r.choice(parent["c"])
        new = copy.deepcopy(kid)
        if not new["c"] and r.random() < 0.6:
            new["x"] = r.choice([new["x"], "", " ", "0", "1", "X", "read-only"])
        at = r.choice([parent["c"].index(kid), parent["c"].index(kid) + 1, len(parent["c"]), 0])
        parent["c"].insert(at, new)
    elif how == "access":
        hits = [m for m in leaves if m["t"] == "access"]
        if hits:
            r.choice(hits)["x"] = r.choice([str, str, str.upper, str.title, str.swapcase, str.lower])(r.choice(ACCESS))
    elif how == "location":
        doc["at"] = [a for a in doc["at"] if not a["n"].endswith("chemaLocation")] + r.choice([
            [], [{"n": "{" + XSI + "}schemaLocation", "v": "a b"}], [{"n": "noNamespaceSchemaLocation", "v": "x.xsd"}],
            [{"n": "{" + XSI + "}noNamespaceSchemaLocation", "v": r.choice(["", " ", "a.xsd", " a.xsd"])}]])
    elif how == "drop":
        del n["c"][r.randrange(len(n["c"]))]
    elif how == "shuffle":
        r.shuffle(n["c"])
    elif how == "unknown":
        n["c"].insert(r.randint(0, len(n["c"])), {"t": r.choice(["unknown", "x-y", "Name", "vendorExtensions", "{urn:o}name"]), "x": r.choice(["", " a ", "v"]),
                                                  "at": [], "c": [copy.deepcopy(r.choice(every))] if r.random() < 0.4 else []})
    elif how == "stray":
        n["c"].insert(r.randint(0, len(n["c"])), copy.deepcopy(r.choice(every)))
    elif how == "attr":
        m = r.choice(every)
        if not any(a["n"] == "other" for a in m["at"]):
            m["at"].insert(r.randint(0, len(m["at"])), {"n": "other", "v": r.choice(LITERALS)})
    elif how == "padattr":
        hits = [m for m in every if m["at"]]
        a = r.choice(r.choice(hits)["at"]) if hits else {"v": ""}
        a["v"] = r.choice(["", " ", "\n", "\u00a0"]) + a["v"] + r.choice(["", " ", "\t"])
    elif how == "literal":
        leaf["x"] = r.choice(LITERALS)
    elif how == "noattr":
        hits = [m for m in every if m["at"]]
        if hits:
            r.choice(hits)["at"].pop()
    elif how == "wrap":
        hits = [m for m in every if m["t"] in WRAPPERS and m is not doc]
        if hits:
            kid = r.choice(hits)
            parent = next(m for m in every if any(k is kid for k in m["c"]))
            new = copy.deepcopy(kid)
            if r.random() < 0.5:
                new["c"] = new["c"][:1]
            parent["c"].insert(r.randint(0, len(parent["c"])), new)
    elif how == "case":
        m = r.choice(every[1:])
        m["t"] = r.choice([m["t"].upper(), m["t"].capitalize(), r.choice(schemadoc.TAGS)])
    elif how == "nest":
        leaf["c"] = [{"t": r.choice(["b", leaf["t"]]), "x": r.choice(["in", leaf["x"]]), "at": [], "c": []}]
        if r.random() < 0.5:
            leaf["x"] = ""
    elif how == "attrvalue":
        m = r.choice(every)
        name = r.choice(["enabled", "protectionWhenDisabled", "name", "derivedFrom", "schemaVersion"])
        m["at"] = [a for a in m["at"] if a["n"] != name] + [{"n": name, "v": r.choice(LITERALS)}]
    elif how == "move":
        r.choice(inner)["c"].append(n["c"].pop(r.randrange(len(n["c"]))))
    elif how == "empty":
        n["c"] = []
    elif how == "namespace":
        m = r.choice([doc, n, leaf])
        m["t"] = "{urn:o}" + m["t"].rsplit("}", 1)[-1]
    return doc


ENTITIES = {"lt": "<", "gt": ">", "amp": "&", "quot": '"', "apos": "'"}


def write(doc, r, noise):
    """The text of a document; noise: how readily markup that says nothing is put in."""
    some = lambda: r.random() < noise  # noqa: E731
    nl = "\n" if some() else ""
    prefix = r.choice(["xs", "xs", "xsi"])
    named = {}  # internal entities: text by name

    def aside():
        return r.choice(["<!-- a comment -->", "<?pi some?>", "<!---->", "<!-- <name>no</name> -->", "<?x?>"]) if some() else ""

    def char(ch, quote=""):
        if ch in "<&" or ch == quote or ch == "\r" or (quote and ch in "\n\t"):
            return {"<": "&lt;", "&": "&amp;", '"': "&quot;", "'": "&apos;"}.get(ch) or f"&#{ord(ch)};"
        if some():
            return r.choice([f"&#{ord(ch)};", f"&#x{ord(ch):x};", f"&#x{ord(ch):04X};"])
        return "&gt;" if ch == ">" else ch

    def text(s, quote=""):
        if s and some() and "]]>" not in s and "&" not in s and "<" not in s and "\r" not in s and (not quote or not set("\n\t'\"") & set(s)) and "%" not in s and '"' not in s:
            name = f"e{len(named)}"
            at = r.randrange(len(s))
            named[name] = s[at:]
            return text(s[:at], quote) + f"&{name};"
        return "".join(char(c, quote) for c in s)

    def body(s):
        out = ""
        while s and some():
            at = r.randint(0, len(s))
            piece, s = s[:at], s[at:]
            how = r.random()
            if how < 0.5 and "]]>" not in piece and "\r" not in piece:
                out += f"<![CDATA[{piece}]]>"
            else:
                out += text(piece) + aside()
        return out + text(s)

    def attribute(name, v):
        q = r.choice("\"'")
        return f"{name}={q}{text(v, q)}{q}"

    def go(n, depth):
        name, decl = n["t"], []
        if name.startswith("{"):
            uri, _, local = name[1:].partition("}")
            if some():
                name = local
                decl = [f'xmlns="{uri}"']
            else:
                name, decl = "o:" + local, [f'xmlns:o="{uri}"']
        elif depth and foreign[-1]:
            decl = ['xmlns=""']
        foreign.append(bool(decl) and decl[0].startswith("xmlns=") and decl[0] != 'xmlns=""')
        at = [attribute(f"{prefix}:" + a["n"].rsplit("}", 1)[1] if a["n"].startswith("{") else a["n"], a["v"]) for a in n["at"]]
        if depth == 0:
            at.insert(0, f'xmlns:{prefix}="{XSI}"')
        if some():
            r.shuffle(at)
        gap = "\n  " if some() else " "
        head = gap.join([name, *decl, *at]) + (" " if some() else "")
        if not n["c"]:
            foreign.pop()
            if not n["x"]:
                return r.choice([f"<{head}/>", f"<{head}></{name}>", f"<{head}>{aside()}</{name}>"])
            return f"<{head}>{body(n['x'])}</{name}>"
        line = nl + "  " * (depth + 1) if nl else ""
        out = f"<{head}>{body(n['x'])}"
        for k in n["c"]:
            out += line + aside() + go(k, depth + 1)
        foreign.pop()
        return out + aside() + nl + f"</{name}>"

    foreign = [False]
    main = go(doc, 0)
    kind = ""
    if named:
        kind = "<!DOCTYPE device [" + "".join(f'<!ENTITY {k} "{v}">' for k, v in named.items()) + "]>" + nl
    first = '<?xml version="1.0"?>' + nl if some() else ""
    return first + aside() + kind + aside() + main + aside() + nl


# --- damage: well-formed documents that say odd things ----------------------------------------------------------------
NUMBERS = ["0", "1", "2", "3", "4", "5", "7", "8", "9", "12", "15", "16", "17", "24", "31", "32", "33", "63", "64", "65", "128", "255", "256", "-1", "-4",
           "0xFF", "0x100", "0xFFFFFFFF", "0x100000000", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "0x7FFFFFFF", "1_0", "#101", "0b1"]
SMALL_NUMBERS = NUMBERS[:16] + ["32", "64", "-1", "-3"]
NAMES = ["", " ", "%s", "[%s]", "A%s", "A[%s]", "%s%s", "A", "B", "a.b", ".", "..", "A.", ".A", "A%sB%s", "%", "%d", "[", "]", "A[0]", "A0", "A1", "Reserved",
         "reserved", "RESERVED", "A B", "\u00e4", "x" * 300, "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16"), "*", "$(A)", "{0}", "None", "__class__"]
PATTERNS = {
    "dim": ["0", "1", "2", "3", "-1", "5", "0x2", "#11", "40"],
    "dimIndex": ["", "0", "0-1", "0-2", "1-0", "A-B", "A-C", "C-A", "a-c", "0,1", "A,B", "A,A", ",", "A,", "0-", "-", "-1", "A-Z", "0-A", "0,1,2", "a,b,c", "0 - 1",
                 "A-B-C", "00-01", "*", "%s,%s", "_-a", "AA-AB", "0-99999", "1,2-3"],
    "bitRange": ["[7:0]", "[0:7]", "[31:0]", "[63:0]", "[0:0]", "[7:]", "[:]", "7:0", "[7-0]", "[ 7:0 ]", "[99:98]", "[-1:0]", "[a:b]", "", "[7:0", "[7:0:1]"],
    "value": NUMBERS + ["#1x", "0b1x", "0bx", "0x1x", "x", "1x", "#xx", "", "0bxxxxxxxx", "A", "-0", "1e3", "#", "0b"],
    "name": NAMES, "alternatePeripheral": NAMES, "alternateCluster": NAMES, "alternateRegister": NAMES, "alternateGroup": NAMES, "prependToName": NAMES,
    "appendToName": NAMES, "displayName": NAMES, "dimName": NAMES,
    "isDefault": ["true", "false", "1", "0"], "usage": ["read", "write", "read-write", "registers", "reserved", "buffer"],
    "access": ACCESS, "lsb": SMALL_NUMBERS, "msb": SMALL_NUMBERS, "bitOffset": SMALL_NUMBERS, "bitWidth": SMALL_NUMBERS, "dimIncrement": SMALL_NUMBERS,
    "addressUnitBits": SMALL_NUMBERS, "width": SMALL_NUMBERS, "size": NUMBERS,
}


def damage(doc, r):
    """One change that keeps a document readable, as a rule, but not what it says sensible."""
    every = list(schemadoc.nodes(doc))
    leaves = [m for m in every if not m["c"] and m is not doc]
    if not leaves:
        return doc
    how = r.choice(["leaf", "leaf", "leaf", "leaf", "derive", "derive", "twin", "drop", "graft", "add", "add", "swap"])
    n = r.choice(every)
    if how == "leaf":
        m = r.choice(leaves)
        m["x"] = r.choice(PATTERNS.get(m["t"], NUMBERS if m["x"][:1].isdigit() else LITERALS))
    elif how == "derive":
        hits = [m for m in every if m["t"] in ("peripheral", "register", "cluster", "field", "enumeratedValues")]
        names = [m["x"] for m in every if m["t"] == "name"]
        if hits:
            m = r.choice(hits)
            m["at"] = [{"n": "derivedFrom", "v": r.choice([r.choice(names), ".".join(r.choice(names) for _ in range(r.choice([2, 2, 3, 4]))), r.choice(NAMES)])}]
            if r.random() < 0.3:
                m["c"] = [k for k in m["c"] if k["t"] in ("name", "baseAddress", "addressOffset")]
    elif how == "twin" and n is not doc:
        parent = next(m for m in every if any(k is n for k in m["c"]))
        parent["c"].append(copy.deepcopy(n))
    elif how == "drop" and n["c"]:
        del n["c"][r.randrange(len(n["c"]))]
    elif how == "graft":
        kind = r.choice(["register", "cluster", "field", "peripheral", "enumeratedValues", "enumeratedValue", "addressBlock"])
        sources, places = [m for m in every if m["t"] == kind], {"register": ("registers", "cluster"), "cluster": ("registers", "cluster"), "field": ("fields",)}
        targets = [m for m in every if m["t"] in places.get(kind, ("field", "peripheral", "enumeratedValues", "peripherals"))]
        if sources and targets:
            r.choice(targets)["c"].append(copy.deepcopy(r.choice(sources)))
    elif how == "add":
        hits = [m for m in every if m["t"] in ("peripheral", "register", "cluster", "field")]
        if hits:
            tag = r.choice(["dim", "dim", "size", "access", "resetValue", "resetMask", "protection", "bitRange", "alternateRegister", "alternateGroup", "alternateCluster",
                            "alternatePeripheral", "dimIndex", "lsb", "bitOffset", "modifiedWriteValues", "readAction", "displayName"])
            m = r.choice(hits)
            new = [{"t": tag, "x": r.choice(PATTERNS.get(tag, NUMBERS)), "at": [], "c": []}]
            if tag == "dim" and r.random() < 0.8:
                new.append({"t": "dimIncrement", "x": r.choice(SMALL_NUMBERS), "at": [], "c": []})
            m["c"] = new + [k for k in m["c"] if k["t"] not in [x["t"] for x in new]]
    elif how == "swap":
        a, b = r.choice(leaves), r.choice(leaves)
        a["x"], b["x"] = b["x"], a["x"]
    return doc


def number(text):
    try:
        return int(text.strip().replace("#", "0b").replace("_", ""), 0)
    except ValueError:
        return 0


def modest(doc, limit=2000):
    """Does the document, however its templates nest and its parts are copied, stay small?"""
    every = list(schemadoc.nodes(doc))
    times = 1
    for m in every:
        if m["t"] == "dim":
            times *= max(1, number(m["x"]))
        elif m["t"] == "dimIndex" and "999" in m["x"]:
            times *= 50
    if any(m["t"] == "isDefault" for m in every):  # every value of the field is listed
        for m in every:
            if m["t"] in ("bitWidth", "msb", "lsb") and number(m["x"]) > 14:
                return False
            if m["t"] == "bitRange" and any(int(n) > 14 for n in re.findall(r"\d+", m["x"])):
                return False
    return times <= limit
