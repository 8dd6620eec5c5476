"""xsd2json.py: reads the schemas once into spec/schemas.json, the tables SvdSchema.tla and the document generator use.

The tables are committed; checks never read the schemas of the repository, which are part of what is checked.
"""
import json, os, sys
from lxml import etree
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHEMAS = "/repo/src/svdsuite/schema"
X = "{http://www.w3.org/2001/XMLSchema}"


# --- regular expressions: ["c", chars, negated] ["seq", ...] ["alt", ...] ["rep", e, min, max(-1)] -------------------
CLASSES = {}


def klass(chars):
    chars = tuple(sorted(chars))
    return CLASSES.setdefault(chars, f"k{len(CLASSES)}")


class Re:
    def __init__(self, s): self.s, self.i = s, 0
    def parse(self):
        e = self.alt()
        assert self.i == len(self.s), (self.s, self.i)
        return e
    def alt(self):
        out = [self.seq()]
        while self.i < len(self.s) and self.s[self.i] == "|":
            self.i += 1
            out.append(self.seq())
        return out[0] if len(out) == 1 else {"o": "alt", "es": out}
    def seq(self):
        out = []
        while self.i < len(self.s) and self.s[self.i] not in "|)":
            out.append(self.rep())
        return out[0] if len(out) == 1 else {"o": "seq", "es": out}
    def rep(self):
        e = self.atom()
        while self.i < len(self.s) and self.s[self.i] in "?*+{":
            c = self.s[self.i]
            if c == "{":
                j = self.s.index("}", self.i)
                n = self.s[self.i + 1:j]
                self.i = j + 1
                lo, _, hi = n.partition(",")
                lo = int(lo); hi = lo if "," not in n else (-1 if hi == "" else int(hi))
            else:
                self.i += 1
                lo, hi = {"?": (0, 1), "*": (0, -1), "+": (1, -1)}[c]
            if (lo, hi) != (1, 1):
                e = {"o": "rep", "e": e, "lo": lo, "hi": hi}
        return e
    def atom(self):
        c = self.s[self.i]
        if c == "(":
            self.i += 1
            e = self.alt()
            assert self.s[self.i] == ")"
            self.i += 1
            return e
        if c == "[":
            self.i += 1
            chars = set()
            while self.s[self.i] != "]":
                a = self.one()
                if self.s[self.i] == "-" and self.s[self.i + 1] != "]":
                    self.i += 1
                    b = self.one()
                    chars |= {chr(k) for k in range(ord(a), ord(b) + 1)}
                else:
                    chars |= set(a)
            self.i += 1
            return {"o": "c", "c": klass(chars)}
        return {"o": "c", "c": klass(self.one())}
    def one(self):
        c = self.s[self.i]
        self.i += 1
        if c != "\\":
            assert c != "." or True
            return c
        c = self.s[self.i]
        self.i += 1
        if c == "p":
            j = self.s.index("}", self.i)
            n = self.s[self.i + 1:j]
            self.i = j + 1
            return "".join(chr(k) for k in {"IsBasicLatin": range(0, 128), "IsLatin-1Supplement": range(128, 256)}[n] if k in (9, 10, 13) or k >= 32)
        return {"s": " \t\n\r", "d": "0123456789"}.get(c, c)


class Schema:
    def __init__(self, path):
        self.root = etree.parse(path).getroot()
        self.simple, self.complex = {}, {}
        self.n = 0
        self.globals = {(e.tag[len(X):], e.get("name")): e for e in self.root if isinstance(e.tag, str)}
        e = self.globals[("element", "device")]
        self.top = self.element_type(e)

    def kids(self, e):
        return [k for k in e if isinstance(k.tag, str) and k.tag not in (X + "annotation",)]

    def type_ref(self, name):
        if name.startswith("xs:"):
            if name not in self.simple:
                self.simple[name] = {"base": name[3:], "enums": [], "patterns": [], "min": -1, "lo": "", "hi": ""}
            return name
        if ("simpleType", name) in self.globals:
            if name not in self.simple:
                self.simple[name] = self.simple_type(self.globals[("simpleType", name)])
            return name
        if name not in self.complex:
            self.complex[name] = None
            self.complex[name] = self.complex_type(self.globals[("complexType", name)])
        return name

    def element_type(self, e):
        if e.get("type"):
            return self.type_ref(e.get("type"))
        k = self.kids(e)
        assert len(k) == 1, etree.tostring(e)[:200]
        self.n += 1
        ident = f"{e.get('name')}#{self.n}"
        if k[0].tag == X + "simpleType":
            self.simple[ident] = self.simple_type(k[0])
        else:
            self.complex[ident] = self.complex_type(k[0])
        return ident

    def simple_type(self, e):
        (r,) = self.kids(e)
        assert r.tag == X + "restriction"
        base = r.get("base")
        out = {"base": base[3:] if base.startswith("xs:") else None, "enums": [], "patterns": [], "min": -1, "lo": "", "hi": ""}
        if out["base"] is None:
            inner = self.simple_type(self.globals[("simpleType", base)])
            assert not inner["enums"] and not inner["patterns"], base
            out = inner
        for f in self.kids(r):
            v = f.get("value")
            t = f.tag[len(X):]
            if t == "enumeration": out["enums"].append(v)
            elif t == "pattern": out["patterns"].append(Re(v).parse())
            elif t == "minLength": out["min"] = int(v)
            elif t == "minInclusive": out["lo"] = v
            elif t == "maxInclusive": out["hi"] = v
            else: raise ValueError(t)
        return out

    def complex_type(self, e):
        assert e.get("mixed") is None
        model = {"o": "seq", "es": []}
        attrs = []
        for k in self.kids(e):
            t = k.tag[len(X):]
            if t == "attribute":
                attrs.append({"n": k.get("name"), "type": self.type_ref(k.get("type")), "must": k.get("use") == "required",
                              "fixed": k.get("fixed") or ""})
            else:
                model = self.particle(k)
        types = {}
        self.tags(model, types)
        return {"model": model, "attrs": attrs, "types": types}

    def tags(self, p, types):
        if p["o"] == "el":
            assert types.setdefault(p["t"], p["type"]) == p["type"], p
        for q in p.get("es", []):
            self.tags(q, types)
        if "e" in p:
            self.tags(p["e"], types)

    def particle(self, e):
        t = e.tag[len(X):]
        lo = int(e.get("minOccurs", "1"))
        hi = e.get("maxOccurs", "1")
        hi = -1 if hi == "unbounded" else int(hi)
        if t == "element":
            p = {"o": "el", "t": e.get("name"), "type": self.element_type(e)}
        elif t == "any":
            p = {"o": "any"}
        elif t == "group":
            (k,) = self.kids(self.globals[("group", e.get("ref"))])
            p = self.particle(k)
        elif t in ("sequence", "choice"):
            p = {"o": "seq" if t == "sequence" else "alt", "es": [self.particle(k) for k in self.kids(e)]}
        else:
            raise ValueError(t)
        return p if (lo, hi) == (1, 1) else {"o": "rep", "e": p, "lo": lo, "hi": hi}


import string
latin = "".join(chr(k) for k in range(0xC0, 0x100) if k not in (0xD7, 0xF7))
start = klass(string.ascii_letters + "_:" + latin)
rest = klass(string.ascii_letters + "_:0123456789.-\u00b7" + latin)
out = {}
for f in sorted(os.listdir(SCHEMAS)):
    s = Schema(f"{SCHEMAS}/{f}")
    head = {k: s.root.get(k) for k in ("elementFormDefault", "attributeFormDefault", "targetNamespace")}
    assert head["targetNamespace"] is None, head
    print(f, head, len(s.simple), len(s.complex))
    out[f[:-4]] = {"top": s.top, "simple": s.simple, "complex": s.complex}
with open(ROOT + "/spec/schemas.json", "w") as f:
    json.dump({"versions": out, "classes": {v: list(k) for k, v in CLASSES.items()},
               "name_start": start, "name_rest": rest}, f, indent=0, sort_keys=True)
