"""Documents drawn from the schema tables (spec/schemas.json), and small changes of documents: for SvdSchema.tla."""

import json
import os
import re
import xml.parsers.expat

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
XSI = "http://www.w3.org/2001/XMLSchema-instance"

with open(os.path.join(ROOT, "spec", "schemas.json")) as f:
    _table = json.load(f)
VERSIONS, CLASSES = _table["versions"], _table["classes"]
ORDER = sorted(VERSIONS, key=lambda v: [int(n) for n in v.split(".")])


def full_tree(content):
    """Element tree with all the text directly in each element."""
    parser = xml.parsers.expat.ParserCreate(namespace_separator="}")
    parser.buffer_text = True
    parser.ordered_attributes = True
    stack = [{"c": []}]

    def split(name):
        return "{" + name if "}" in name else name

    def start(name, at):
        e = {"t": split(name), "x": "", "at": [{"n": split(at[i]), "v": at[i + 1]} for i in range(0, len(at), 2)], "c": []}
        stack[-1]["c"].append(e)
        stack.append(e)

    def text(data):
        stack[-1]["x"] += data

    parser.StartElementHandler = start
    parser.EndElementHandler = lambda _: stack.pop()
    parser.CharacterDataHandler = text
    parser.Parse(content, True)
    return stack[0]["c"][0]


NUMBER = re.compile(r"\+?(0[xX][0-9a-fA-F]{1,6}|[1-9]?[0-9]{1,3})")
PLAIN = {"scaledNonNegativeInteger": NUMBER, "": re.compile(".*", re.S),
         "enumeratedValueDataType": re.compile(r"\+?(0[xX][0-9a-fA-F]+|[1-9]?[0-9]+|#[01xX]+|0b[01xX]+)")}
NEEDED = ("name", "addressUnitBits", "width", "version", "description", "size")


class Draw:
    """Draws a document of a version.  more: how readily optional parts are taken; plain: what the parser can read too."""

    def __init__(self, r, version, more, plain):
        self.r, self.v, self.more, self.plain = r, VERSIONS[version], more, plain
        self.left = 60  # elements

    def literal(self, type_):
        st, r = self.v["simple"][type_], self.r
        if st["enums"]:
            s = r.choice(st["enums"])
        elif st["patterns"]:
            s = self.matching(r.choice(st["patterns"]))
            for _ in range(60):
                if not self.plain or PLAIN.get(type_, PLAIN[""]).fullmatch(s):
                    break
                s = self.matching(r.choice(st["patterns"]))
        else:
            s = {"boolean": lambda: r.choice(["true", "false", "1", "0"]),
                 "integer": lambda: r.choice(["0", "7"] if self.plain else ["0", "7", "-3", "+12", "007", "123456789012"]),
                 "decimal": lambda: r.choice(["1.0", "1.1", "1.2", "1.3", "1.30", "01.3", "+1.3", "2", "-0.5", ".5"]),
                 "Name": lambda: r.choice(["a", "_x", "A.b-c", "a:b", "x1"]),
                 }.get(st["base"], lambda: r.choice(["text", "a b", "x", "A_1", *([] if self.plain else ["", " "]), "two  blanks", "\u00e4", "\u20ac <&>"]))()
        if len(s) < st["min"]:
            s = "more"[:max(1, st["min"])]
        if st["base"] != "string" and r.random() < 0.1:
            s = r.choice([" ", "\n  ", "\t"]) + s + r.choice([" ", "\n", ""])
        return s

    def matching(self, e):
        r = self.r
        if e["o"] == "c":
            return r.choice(CLASSES[e["c"]])
        if e["o"] == "seq":
            return "".join(self.matching(x) for x in e["es"])
        if e["o"] == "alt":
            return self.matching(r.choice(e["es"]))
        hi = e["lo"] + 3 if e["hi"] < 0 else min(e["hi"], e["lo"] + 3)
        return "".join(self.matching(e["e"]) for _ in range(r.randint(e["lo"], hi)))

    def tags(self, p):
        """The elements a content model is made of, drawn: (tag, type)."""
        r = self.r
        if p["o"] == "el":
            return [(p["t"], p["type"])]
        if p["o"] == "any":
            return [(r.choice(["vendor", "x", "name", "{urn:v}extra"]), None)]
        if p["o"] == "seq":
            return [x for q in p["es"] for x in self.tags(q)]
        if p["o"] == "alt":
            short = [q for q in p["es"] if q.get("t") not in ("cluster",)] if self.left < 20 else p["es"]
            return self.tags(r.choice(short or p["es"]))
        n = p["lo"]
        if self.plain and p["e"].get("t") in NEEDED:
            n = 1
        hi = p["lo"] + 2 if p["hi"] < 0 else p["hi"]
        while n < hi and self.left > 0 and r.random() < self.more:
            n += 1
        return [x for _ in range(n) for x in self.tags(p["e"])]

    def element(self, tag, type_):
        self.left -= 1
        n = {"t": tag, "x": "", "at": [], "c": []}
        if type_ is None:
            n["x"] = self.r.choice(["", "free"])
            if self.r.random() < 0.3:
                n["c"] = [self.element("inner", None)]
        elif type_ in self.v["simple"]:
            n["x"] = self.literal(type_)
        else:
            ct = self.v["complex"][type_]
            for a in ct["attrs"]:
                if a["must"] or self.r.random() < self.more:
                    n["at"].append({"n": a["n"], "v": a["fixed"] or self.literal(a["type"])})
            n["c"] = [self.element(t, ty) for t, ty in self.tags(ct["model"])]
        return n

    def document(self):
        n = self.element("device", self.v["top"])
        if self.r.random() < 0.5:
            n["at"].append({"n": "{" + XSI + "}noNamespaceSchemaLocation", "v": "CMSIS-SVD.xsd"})
        return n


def nodes(n):
    yield n
    for k in n["c"]:
        yield from nodes(k)


def vocabulary():
    tags, literals = set(), set()
    for v in VERSIONS.values():
        for st in v["simple"].values():
            literals.update(st["enums"])
        for ct in v["complex"].values():
            tags.update(ct["types"])
    return sorted(tags), sorted(literals)


TAGS, LITERALS = vocabulary()
ODD = ["", " ", "0", "1", "-1", "0x1F", "0X1f", "#101", "#1x0", "0b11", "1k", "2M", "1.5", ".5", "5.", "a-b", "[7:0]", "[ 7 : 0 ]",
       "%s", "A%s", "A[%s]", "%sB", "A%sB", "[%s]", "0-3", "A,B", "A-C", "3-0", "s", "n", "p", "x", "true", "TRUE", "yes", "r0p1", "r10p2",
       "r0P1", "01", "1 ", "A B", "A.B", "A.B.C", "A\u00e4", "9A", "_", "*", "-", "+", "none", "uint8_t *", "uint8_t*", "name:1", "#", "0x"]


def change(doc, r):
    """One small change somewhere in a document."""
    every = list(nodes(doc))
    n = r.choice(every)
    leaves = [m for m in every if not m["c"]]
    how = r.choice(["drop", "twice", "swap", "move", "tag", "foreign", "attr", "attr", "noattr", "literal", "literal", "literal", "literal",
                    "text", "space", "empty", "root", "nil", "flat", "namespace", "char", "char"])
    if how in ("drop", "twice", "swap", "move") and not n["c"]:
        n = r.choice([m for m in every if m["c"]] or [doc])
    i = r.randrange(len(n["c"])) if n["c"] else -1
    if how == "drop" and n["c"]:
        del n["c"][i]
    elif how == "twice" and n["c"]:
        n["c"].insert(i, json.loads(json.dumps(n["c"][i])))
    elif how == "swap" and n["c"]:
        j = r.randrange(len(n["c"]))
        n["c"][i], n["c"][j] = n["c"][j], n["c"][i]
    elif how == "move" and n["c"]:
        r.choice([m for m in every if m["c"]])["c"].insert(0, n["c"].pop(i))
    elif how == "tag":
        n["t"] = r.choice(TAGS)
    elif how == "foreign":
        n["c"].insert(r.randint(0, len(n["c"])), {"t": r.choice(TAGS + ["unknown", "vendorExtensions"]), "x": r.choice(ODD), "at": [], "c": []})
    elif how == "attr":
        name = r.choice(["derivedFrom", "schemaVersion", "enabled", "protectionWhenDisabled", "name", "id"])
        n["at"] = [a for a in n["at"] if a["n"] != name] + [{"n": name, "v": r.choice(ODD + LITERALS)}]
    elif how == "noattr" and n["at"]:
        n["at"].pop(r.randrange(len(n["at"])))
    elif how == "literal":
        m = r.choice(leaves)
        m["x"] = r.choice(ODD + LITERALS)
    elif how == "char":
        m = r.choice(leaves)
        at = r.randint(0, len(m["x"]))
        m["x"] = m["x"][:at] + r.choice("0aAxX#-_ ,[]:%s+.kG") + m["x"][at + r.choice([0, 1]):]
    elif how == "text":
        n["x"] += r.choice(["word", ".", "\u00a0", "0"])
    elif how == "space":
        m = r.choice(leaves)
        m["x"] = r.choice([" ", "\n", "\t "]) + m["x"] + r.choice(["", "  "])
    elif how == "empty":
        r.choice(leaves)["x"] = ""
    elif how == "root":
        doc["t"] = r.choice(["Device", "devices", "peripheral", "device"])
    elif how == "nil":
        m = r.choice([doc, doc, n])
        m["at"] = [a for a in m["at"] if not a["n"].endswith("}nil")] + [{"n": "{" + XSI + "}nil", "v": r.choice(["true", "false", "1", "0", "no"])}]
        if r.random() < 0.5:
            m["c"], m["x"] = [], ""
    elif how == "flat":
        n["c"] = []
    elif how == "namespace":
        m = r.choice([doc, n])
        m["t"] = "{urn:other}" + m["t"].rsplit("}", 1)[-1]
    return doc


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def quote(s):
    return '"' + esc(s).replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;") + '"'


def write(n, r, pretty):
    """The text of a document, laid out in one of the ways that mean the same."""
    aside = lambda: r.choice(["", "", "", "", "<!-- x -->", "<?pi y?>"]) if pretty else ""  # noqa: E731

    def tag(name):
        if name.startswith("{" + XSI + "}"):
            return "xs:" + name.rsplit("}", 1)[1], ""
        if name.startswith("{"):
            uri, _, local = name[1:].partition("}")
            return "v:" + local, f' xmlns:v="{uri}"'
        return name, ""

    def go(n, depth):
        name, ns = tag(n["t"])
        out = f"<{name}{ns}"
        if depth == 0:
            out += f' xmlns:xs="{XSI}"'
        for a in n["at"]:
            an, ans = tag(a["n"])
            out += f"{ans} {an}={quote(a['v'])}"
        if not n["c"]:
            if n["x"] == "" and r.random() < 0.5:
                return out + "/>"
            x = n["x"]
            if pretty and len(x) > 1 and r.random() < 0.05:
                at = r.randrange(len(x))
                return out + ">" + esc(x[:at]) + r.choice(["<!-- in -->", "<![CDATA[]]>"]) + esc(x[at:]) + f"</{name}>"
            if pretty and r.random() < 0.05 and "]]>" not in x:
                return out + f"><![CDATA[{x}]]></{name}>"
            return out + f">{esc(x)}</{name}>"
        line = "\n" + "  " * (depth + 1) if pretty else ""
        out += ">" + esc(n["x"])
        for k in n["c"]:
            out += line + aside() + go(k, depth + 1)
        return out + aside() + ("\n" + "  " * depth if pretty else "") + f"</{name}>"

    return aside() + go(n, 0) + aside()
