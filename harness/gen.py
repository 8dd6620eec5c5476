"""Seeded generation of SVD documents.

A document is built as a tree of small dictionaries, decorated with derivedFrom paths, and rendered to XML text.  A
profile sets the weight of each feature; families of cases differ in their profiles.
"""

import random

DATA_TYPES = ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *",
              "uint16_t *", "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *"]
MWV = ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify"]
READ_ACTION = ["clear", "set", "modify", "modifyExternal"]
ACCESS = ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"]
PROTECTION = ["s", "n", "p", "any"]
CPUS = ["CM0", "CM0PLUS", "CM0+", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85", "SC000",
        "SC300", "ARMV8MML", "ARMV8MBL", "ARMV81MML", "CA5", "CA7", "CA8", "CA9", "CA15", "CA17", "CA53", "CA57",
        "CA72", "SMC1", "other"]
TEXTS = ["alpha", "beta gamma", "A register", "x < y & z", "mode: \"on\"", "a  b", "T1\n  second line", "100%", "%s of n",
         "[%s]", "it's", "0", "description"]
# descriptions are kept as they are, white space included
RAW_TEXTS = [" x ", "x\n", "\n  indented\n", " ", "\t", "tab\tinside", "\u00e9\u00b5\u20ac", "\U0001f600 wide", "a\u00a0b", "\u3000",
             "]]>", "--", "&amp;", "<b>", "cr\rlf", "\u2028", "None", "0x10", "e\u0301"]

BASE = dict(
    derive=0.25, bad_path=0.02, any_target=0.05, path_full=0.5, forward=0.5,
    dim=0.2, dim_bad=0.015, dim_big=0.03, dim_attr_only=0.03, dim_index=0.6,
    props=0.25, odd_size=0.03, size_pool=(8, 16, 32, 32, 32, 64, 128),
    alternate=0.08, alt_group=0.06, overlap=0.08, misalign=0.05, high=0.12,
    fields=0.6, bits_bad=0.02, field_overlap=0.08, enums=0.35, enum_bad=0.02, reserved=0.02,
    text=0.2, behaviour=0.15, dup_name=0.02, no_block=0.02, blocks=0.3, interrupts=0.25,
    dirty=0.35, cluster=0.3, depth=2, regs=(1, 3), peripherals=(1, 3), empty=0.03, cpu=0.25, meta=0.2,
    numbers=0.4, raw_text=0.15, odd_names=0.1, tiny_names=0.0, own_after_derive=0.5, shuffle=0.0, dim_index_meta=0.03, instances=90,
    many=0.03, far=0.02, split=0.0,
)


# what makes a document invalid; most documents have none of it
BAD = ("bad_path", "any_target", "dim_bad", "odd_size", "bits_bad", "field_overlap", "enum_bad", "dup_name", "no_block",
       "empty", "reserved")


def node(kind, **attrs):
    return {"k": kind, "a": attrs, "kids": [], "derived": None}


class Gen:
    def __init__(self, seed, **profile):
        self.r = random.Random(seed)
        self.p = {**BASE, **profile}
        if self.r.random() >= self.p["dirty"]:
            self.p.update((key, 0) for key in BAD if key not in profile)
        if self.chance("many"):  # rather many elements, each of them rather plain
            self.p.update({"regs": (4, 14), "peripherals": (1, 7), "depth": 1} if self.chance(0.7) else
                          {"peripherals": (8, 20), "depth": 1} if self.chance(0.7) else {"depth": 5, "cluster": 0.9})
            self.p.update((key, self.p[key] * 0.4) for key in ("fields", "dim", "derive", "enums", "text"))
            self.p.update((key, v) for key, v in profile.items() if key in ("regs", "peripherals", "depth"))
        self.serial = 0
        self.defaults = False  # a default value expands to the whole range of its field: keep those fields narrow
        self.wide = False  # some field is wider than that

    # --- choices -------------------------------------------------------------------------------------------------
    def chance(self, key):
        return self.r.random() < (self.p[key] if isinstance(key, str) else key)

    def pick(self, *options):
        return self.r.choice(options[0] if len(options) == 1 else options)

    def between(self, lo, hi):
        return self.r.randint(lo, hi)

    def num(self, v):
        """A text for a number."""
        if not self.chance("numbers"):
            return hex(v) if v > 9 else str(v)
        form = self.between(0, 9)
        if form == 0:
            return "0x%X" % v
        if form == 1:
            return "0X%x" % v
        if form == 2:
            return "0x%08x" % v
        if form == 3 and v < 1 << 70:
            return "#" + bin(v)[2:]
        if form == 4 and v < 1 << 70:
            return "0b" + bin(v)[2:]
        if form == 5:
            return "+%d" % v
        if form == 6:
            return "00%d" % v
        if form == 7:
            return "#00" + bin(v)[2:]
        return str(v) if form == 8 else "0x%x" % v

    def name(self, kind, siblings):
        """A fresh name among the siblings, most of the time."""
        taken = {s["a"].get("name") for s in siblings}
        prefix = {"peripheral": "P", "cluster": "C", "register": "R", "field": "F", "enumc": "E"}[kind]
        if self.chance("tiny_names"):
            pool = ["A", "B", "C"] if self.chance(0.5) else [prefix + "A", prefix + "B"]
        else:
            pool = [prefix + c for c in "ABCDEFGH"]
        if taken and self.chance("dup_name"):
            return self.pick(sorted(t for t in taken if t) or pool)
        if self.chance("odd_names"):
            pool = pool + [prefix + "a", (prefix + "B").lower(), prefix + "_1", prefix + "10", prefix + "2", "_" + prefix,
                           "Reserved" + prefix, prefix + "A" * 30]
            if kind in ("peripheral", "cluster"):
                pool += ["reserved"]
        free = [n for n in pool if n not in taken]
        if free:
            return free[0] if self.chance(0.3) else self.pick(free)
        self.serial += 1
        return prefix + str(self.serial)

    # --- pieces --------------------------------------------------------------------------------------------------
    def reg_props(self, a, factor=1.0):
        p = self.p["props"] * factor
        if self.chance(p):
            a["size"] = self.pick(12, 20, 7, 33, 24, 48, 256) if self.chance("odd_size") else self.pick(self.p["size_pool"])
        if self.chance(p):
            a["access"] = self.pick(ACCESS)
        if self.chance(p):
            a["protection"] = self.pick(PROTECTION)
        if self.chance(p):
            a["resetValue"] = self.pick(0, 1, 0xA5, 0xFFFFFFFF, 0x12345678, (1 << 63) + 5, self.between(0, 1 << 32))
        if self.chance(p):
            a["resetMask"] = self.pick(0, 0xFF, 0xFFFFFFFF, 0xF0F0, (1 << 64) - 1)

    def describe(self, a, key="description", p=None):
        if self.chance(self.p["text"] if p is None else p):
            a[key] = self.pick(RAW_TEXTS if self.chance("raw_text") and key == "description" else TEXTS)

    def weight(self, n):
        """Number of elements an element expands to."""
        return n.get("dimmed", 1) * (1 + sum(self.weight(k) for k in n["kids"]))

    def expanded(self, d):
        """Number of elements the device expands to, derivations included."""
        memo, open_ = {}, set()

        def go(n):
            if id(n) in open_:
                return 1
            if id(n) not in memo:
                open_.add(id(n))
                kids = n["kids"]
                base = n.get("base")
                total, hops = 1 + sum(go(k) for k in kids), 0
                while base is not None and hops < 20:
                    total += sum(go(k) for k in base["kids"])
                    base, hops = base.get("base"), hops + 1
                source = n if "dimmed" in n else n.get("base") or n
                open_.discard(id(n))
                memo[id(n)] = max(n.get("dimmed", 1), source.get("dimmed", 1)) * total
            return memo[id(n)]

        return sum(go(n) for n in d["kids"])

    def dim(self, n, increment):
        """Replication attributes; renames the node."""
        a, kind = n["a"], n["k"]
        if not self.chance("dim"):
            if self.chance("dim_attr_only"):
                a["dim"] = self.between(1, 3)
                a["dimIncrement"] = increment
            elif self.chance("dim_bad"):
                a["name"] += self.pick("%s", "[%s]")
            return 1
        dim = (self.between(9, 13) if self.chance(0.75) else self.between(14, 40)) if self.chance("dim_big") else self.between(1, 4)
        room = self.p["instances"] // self.weight(n)  # replication within replication multiplies
        dim = max(1, min(dim, room))
        n["dimmed"] = dim
        array = kind == "peripheral" or (kind != "field" and self.chance(0.4))
        if self.chance("dim_bad"):
            array = not array
        if array:
            a["name"] += "[%s]"
        else:
            where = self.between(0, 2)
            a["name"] = ["%s" + a["name"], a["name"] + "%s", a["name"] + "%s_X"][where] if self.chance(0.5) else a["name"] + "%s"
            if self.chance(0.03):
                a["name"] += "_%s"
        a["dim"] = 0 if self.chance("dim_bad") else dim
        a["dimIncrement"] = increment
        if self.chance("dim_index"):
            a["dimIndex"] = self.index_text(dim)
        if self.chance("dim_index_meta"):
            a["dimName"] = "N" + a["name"].replace("[%s]", "").replace("%s", "")
            a["dimArrayIndex"] = [self.enum_value(i, 2) for i in range(self.between(0, 2))]
        return dim

    def index_text(self, dim):
        if self.chance("dim_bad"):
            return self.pick("3-1", "C-A", "A-A", "0-", "-", "a-c", "1,,2", "0-%d" % dim, "A,B", "x", "0", ",", "%s")
        form = self.between(0, 6)
        if form == 0:
            lo = self.pick(0, 1, 3, 7, 9, 98)
            zeros = "0" * self.pick(0, 0, 1, 2)
            return f"{zeros}{lo}-{zeros if self.chance(0.5) else ''}{lo + dim - 1}"
        if form == 1 and 2 <= dim <= 26:
            lo = self.between(0, 26 - dim)
            return chr(65 + lo) + "-" + chr(65 + lo + dim - 1)
        if form == 2 and dim == 1:
            return self.pick("A", "zero", "7", "_x", "A1")
        if form == 3:
            words = self.r.sample(["A", "B", "C", "D", "E0", "_f", "7", "10", "b", "c", "AA", "z9", "Q", "W"], min(dim, 14))
            return "".join(w + self.pick(",", ", ", ",", ",  ", ",\t", ",\n  ", ",\n") for w in words[:-1]) + words[-1] \
                if 1 < dim <= 14 else ",".join(f"i{i}" for i in range(dim)) if dim > 1 else "B"
        if form == 4:
            return ",".join(str(10 * i + 1) for i in range(dim)) if dim > 1 else "01"
        if form == 5:
            return f"0-{dim - 1}"
        return ",".join("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[:dim]) if dim > 1 else "A"

    def constraint(self, a):
        if not self.chance(self.p["behaviour"] * 0.7):
            return
        c = {}
        for key in ("writeAsRead", "useEnumeratedValues"):
            if self.chance(0.25):
                c[key] = self.pick("true", "false", "1", "0", "True")
        if self.chance(0.6):
            lo = self.pick(0, 1, 5, 1 << 33)
            c["range"] = (lo, lo + self.pick(0, 3, 0xFFFF)) if self.chance(0.8) else (lo + 7, lo)
        a["writeConstraint"] = c

    def enum_value(self, v, width):
        a = {"name": "v%d" % v if self.chance(0.8) else self.pick("on", "off", "reserved", "Reserved", "RESERVED", "idle",
                                                                             "reserved_", "_Reserved", "ReservedA")}
        self.describe(a)
        if not self.chance("enum_bad"):
            a["value"] = self.value_text(v, width)
        return a

    def value_text(self, v, width):
        form = self.between(0, 8)
        bits = bin(v)[2:].zfill(width)
        if form == 0:
            return "0x%X" % v
        if form == 1:
            return "#" + bits
        if form == 2:
            return "0b" + bits
        if form == 3:
            return "0X%x" % v
        if form == 4:
            return "0B" + bits
        if form in (5, 6) and self.chance(0.6):
            rate = 0.35 if width <= 6 else 0.2
            marks = [self.pick("x", "X") if self.chance(rate) else b for b in bits]
            while sum(b in "xX" for b in marks) > 6:
                marks[self.between(0, len(marks) - 1)] = "1"
            return self.pick("0b", "#", "0B") + "".join(marks)
        if form == 8 and self.chance(0.3):  # leading zeros, of any notation
            zeros = "0" * self.between(1, 4)
            return self.pick(zeros + str(v), zeros + str(v), "0x" + zeros + "%x" % v, "0b" + zeros + bits, "#" + zeros + bits)
        return str(v)

    def enums(self, field, width):
        """enumeratedValues containers of a field."""
        if not self.chance("enums"):
            return
        both = self.chance(0.2)
        usages = ["read", "write"] if both else [self.pick(None, "read", "write", "read-write")]
        if both and self.chance(0.3):
            usages.reverse()
        if self.chance("enum_bad"):
            usages.append(self.pick(None, "read", "write", "read-write"))
        for usage in usages:
            e = node("enumc")
            if self.chance(0.6):
                e["a"]["name"] = self.name("enumc", field["kids"])
            if self.chance(0.2):
                e["a"]["headerEnumName"] = "H" + str(self.between(0, 9))
            if usage is not None:
                e["a"]["usage"] = usage
            w = max(1, min(width, 4)) if self.chance(0.75) else max(1, min(width, 16))
            limit = 1 << w
            count = min(limit, self.between(1, 4))
            chosen = self.r.sample(range(limit), count)
            if self.chance(0.3):
                chosen.sort()
            if self.chance(0.1):
                chosen.append(self.pick(limit, limit + 1, chosen[0]))
            vals = [self.enum_value(v, w) for v in chosen]
            if self.chance(0.25) and not self.wide and (width <= 8 or width <= 10 and not self.defaults and self.chance(0.5)):
                d = {"name": self.pick("dflt", "other", "v1"), "isDefault": self.pick("true", "1", "True")}
                self.describe(d)
                if self.chance(0.2):
                    d["value"] = self.value_text(self.between(0, limit - 1), w)
                vals.insert(self.between(0, len(vals)), d)
                self.defaults = True
                if self.chance("enum_bad"):
                    vals.append(dict(d, name="dflt2"))
            if self.chance("enum_bad"):
                self.pick(vals)["value"] = self.pick("", "q", "0b", "0b2", "0x", "0xG", "-1", "x", "1x", "0b1x0y")
            if self.chance("enum_bad"):
                self.pick(vals).pop("value", None)
            if self.chance(0.1):
                self.pick(vals)["isDefault"] = "false"
            e["vals"] = vals
            field["kids"].append(e)

    def fields(self, reg, size):
        if not self.chance("fields"):
            return
        size = size or 32
        at = self.between(size // 2, size - 3) if size >= 32 and self.chance(0.12) else 0
        for _ in range(self.between(1, 4)):
            f = node("field")
            a = f["a"]
            a["name"] = self.name("field", reg["kids"])
            if self.chance("reserved"):
                a["name"] = self.pick("reserved", "RESERVED", "Reserved", "reserved_", "_reserved", "Reserved1")
            self.describe(a)
            width = self.pick(1, 1, 2, 3, 4, 8) if self.chance(0.85) else self.pick(5, 6, 7, 9, 10, 12, 16)
            if width > 10:
                if self.defaults:
                    width = 5
                else:
                    self.wide = True
            gap = self.pick(0, 0, 1, 2)
            lsb = at + gap
            if at and self.chance("field_overlap"):
                lsb = max(0, at - self.between(1, 2))
                if self.chance(0.6):
                    a["access"] = self.pick(ACCESS)
            dim = self.dim(f, self.pick(width, width, width + 1) if not self.chance("field_overlap") else max(0, width - 1))
            self.place_bits(f, lsb, lsb + width - 1)
            at = lsb + width + (dim - 1) * a.get("dimIncrement", 0)
            if self.chance(self.p["props"] * 0.6):
                a["access"] = self.pick(ACCESS)
            if self.chance("behaviour"):
                a["modifiedWriteValues"] = self.pick(MWV)
            if self.chance("behaviour"):
                a["readAction"] = self.pick(READ_ACTION)
            self.constraint(a)
            self.enums(f, width)
            reg["kids"].append(f)
            if at >= size and not self.chance(0.1):
                break
        if self.chance(0.3):
            self.r.shuffle(reg["kids"])

    def place_bits(self, f, lsb, msb):
        a = f["a"]
        if self.chance("bits_bad"):
            lsb, msb = msb, lsb
        form = self.between(0, 3)
        if form == 0:
            a["bitOffset"], a["bitWidth"] = lsb, msb - lsb + 1
            if msb < lsb:
                a["bitWidth"] = 0
        elif form == 1:
            a["lsb"], a["msb"] = lsb, msb
        else:
            a["bitRange"] = "[%d:%d]" % (msb, lsb)
        if self.chance("bits_bad") and not self.defaults:
            a.pop(self.pick([k for k in ("bitOffset", "bitWidth", "lsb", "msb", "bitRange") if k in a]))
        if self.chance("bits_bad"):
            a["bitRange"] = self.pick("[%d:%d]" % (msb, lsb), "%d:%d" % (msb, lsb), "[3]", "[a:b]", "[:]", "[ 3:1 ]", "[4:0]x")
        if self.chance("bits_bad"):
            a["lsb"] = lsb
        if self.chance("bits_bad"):
            a["bitOffset"] = lsb

    def register(self, siblings, offset, size):
        n = node("register")
        a = n["a"]
        a["name"] = self.name("register", siblings)
        if self.chance("reserved"):
            a["name"] = self.pick("reserved", "RESERVED", "Reserved", "Reserved_", "_reserved", "reserved1", "_RESERVED_")
        self.reg_props(a)
        self.describe(a)
        size = a.get("size", size) or 32
        step = max(1, size // 8)
        dim = self.dim(n, self.pick(step, step, step, step * 2, 4, 1) if self.chance(0.9) else 0)
        if self.chance(0.15):
            mark = "[%s]" if "[%s]" in a["name"] else "%s" if "%s" in a["name"] else ""
            if self.chance("dim_bad"):
                mark = self.pick("[%s]", "%s")
            a["displayName"] = a["name"] if self.chance(0.3) else self.pick("D" + mark, mark + "Shown", "D")
        if self.chance("behaviour"):
            a["modifiedWriteValues"] = self.pick(MWV)
        if self.chance("behaviour"):
            a["readAction"] = self.pick(READ_ACTION)
        if self.chance("behaviour"):
            a["dataType"] = self.pick(DATA_TYPES)
        self.constraint(a)
        a["addressOffset"] = offset
        self.fields(n, size)
        return n, offset + step * dim if "dimIncrement" not in a else offset + max(step, a["dimIncrement"] * (dim - 1) + step)

    def cluster(self, siblings, offset, size, depth):
        n = node("cluster")
        a = n["a"]
        a["name"] = self.name("cluster", siblings)
        self.reg_props(a, 0.5)
        self.describe(a)
        if self.chance(0.1):
            a["headerStructName"] = "HS" + a["name"]
        a["addressOffset"] = offset
        end = self.body(n, a.get("size", size), depth - 1)
        dim = self.dim(n, max(4, -(-end // 4) * 4) if self.chance(0.9) else self.pick(4, 1))
        return n, offset + (end if "dimIncrement" not in a else a["dimIncrement"] * (dim - 1) + end)

    def body(self, n, size, depth):
        """Registers and clusters of a peripheral or cluster; returns the end of the occupied range."""
        at = 0
        if self.chance("empty"):
            return 4
        for _ in range(self.between(*self.p["regs"])):
            width = max(1, (size or 32) // 8)
            align = min(width, 4)
            at = -(-at // align) * align
            if self.chance("misalign"):
                at += self.between(1, 3)
            if at and self.chance("overlap"):
                at = max(0, at - self.pick(4, 8, 1))
            if depth > 0 and self.chance("cluster"):
                k, at = self.cluster(n["kids"], at, size, depth)
            else:
                k, at = self.register(n["kids"], at, size)
            n["kids"].append(k)
            if self.chance(0.15):
                at += self.pick(4, 8, 0x10, 0x100)
            if self.chance("far"):
                at += self.pick(0xFFC, 0x10000, 0xFFFF0000, 1 << 32)
        if self.chance(0.2):
            self.r.shuffle(n["kids"])
        self.alternates(n["kids"])
        return at

    def alternates(self, kids):
        regs = [k for k in kids if k["k"] == "register"]
        clus = [k for k in kids if k["k"] == "cluster"]
        for group, key in ((regs, "alternateRegister"), (clus, "alternateCluster")):
            if len(group) < 2 and not self.chance(0.02):
                continue
            for k in group:
                if self.chance("alternate"):
                    other = self.pick(group)
                    k["a"][key] = self.chance(0.9) and other["a"]["name"] or "Nowhere"
                    if self.chance(0.7):
                        k["a"]["addressOffset"] = other["a"]["addressOffset"]
        for k in regs:
            if self.chance("alt_group"):
                k["a"]["alternateGroup"] = self.pick("G1", "G2", "g")
                other = self.pick(regs)
                if self.chance(0.5) and other is not k:
                    k["a"]["addressOffset"] = other["a"]["addressOffset"]
                    if self.chance(0.6):
                        k["a"]["name"] = other["a"]["name"]
                        k["twin"] = True
                        for key in ("dim", "dimIncrement", "dimIndex"):
                            k["a"].pop(key, None)
                            if key in other["a"]:
                                k["a"][key] = other["a"][key]
                if self.chance(0.95):
                    k["a"].pop("alternateRegister", None)

    def peripheral(self, siblings, base):
        n = node("peripheral")
        a = n["a"]
        a["name"] = self.name("peripheral", siblings)
        self.reg_props(a, 0.7)
        self.describe(a, p=0.5)
        for key, p in (("version", 0.1), ("groupName", 0.1), ("prependToName", 0.08), ("appendToName", 0.08),
                       ("headerStructName", 0.1)):
            if self.chance(p):
                a[key] = key[:3].upper() + str(self.between(0, 3))
        self.describe(a, "disableCondition", 0.05)
        a["baseAddress"] = base
        end = max(4, self.body(n, a.get("size"), self.p["depth"]))
        span = -(-end // 4) * 4
        blocks = []
        if not self.chance("no_block"):
            blocks.append({"offset": 0, "size": span})
            if self.chance("blocks"):
                if self.chance(0.5):
                    blocks.append({"offset": span + self.pick(0, 0, 4, 0x100), "size": self.pick(4, 0x20)})
                else:
                    blocks[0]["size"] = max(4, span // 2)
                    blocks.append({"offset": self.pick(blocks[0]["size"], 4, 0, span), "size": self.pick(span, 4, 0x40)})
                if self.chance(0.4):
                    blocks.append({"offset": self.pick(span * 2, 2, 0x80), "size": self.pick(4, 8, 1)})
                if self.chance(0.4):
                    self.r.shuffle(blocks)
            if self.chance(self.p["blocks"] * 0.4):
                start = self.pick(4, 0x40, 0x800, 0x3000)
                for b in blocks:
                    b["offset"] += start
        for b in blocks:
            b["usage"] = "registers" if self.chance(0.8) else self.pick("buffer", "reserved")
            if self.chance(0.2):
                b["protection"] = self.pick(PROTECTION)
        a["addressBlock"] = blocks
        a["interrupt"] = []
        if self.chance("interrupts"):
            for _ in range(self.between(1, 3)):
                i = {"name": "I" + str(self.between(0, 9)), "value": self.pick(0, 1, 5, 17, 239, self.between(0, 300))}
                self.describe(i)
                if self.chance(0.05):
                    del i["value"]
                a["interrupt"].append(i)
        self.dim(n, self.pick(span, span, 0x1000, 4))
        return n

    def device(self):
        d = {"a": {}, "kids": []}
        a = d["a"]
        a["name"] = "Dev"
        a["version"] = self.pick("1.0", "2", "r1")
        a["description"] = self.pick(RAW_TEXTS if self.chance("raw_text") else TEXTS)
        for key in ("vendor", "vendorID", "series", "licenseText", "headerSystemFilename", "headerDefinitionsPrefix"):
            if self.chance("meta"):
                a[key] = self.pick("ACME", "acme corp", "X_1", "q")
        a["addressUnitBits"] = 8 if self.chance(0.9) else self.pick(16, 32, 1)
        a["width"] = self.pick(32, 32, 64, 16)
        self.reg_props(a, 0.8)
        if self.chance("cpu"):
            a["cpu"] = self.cpu()
        base = self.pick(0x40000000, 0x1000)
        if self.chance("high"):
            base = self.pick(0x7FFFF000, 0xFFFFF000, 0x100000000, 0xFFFFFFFF0000, 1 << 62, 0xE000E000, 0x80000000)
        for _ in range(self.between(*self.p["peripherals"])):
            n = self.peripheral(d["kids"], base)
            if self.chance("misalign"):
                n["a"]["baseAddress"] += self.between(1, 3)
            d["kids"].append(n)
            last = n["a"]["addressBlock"]
            base += 0x1000 if not self.chance("overlap") else self.pick(0, 4, last[0]["size"] if last else 8, 2)
        for n in d["kids"]:
            if len(d["kids"]) > 1 and self.chance("alternate"):
                other = self.pick(d["kids"])
                n["a"]["alternatePeripheral"] = other["a"]["name"] if self.chance(0.9) else "Nowhere"
                if self.chance(0.7):
                    n["a"]["baseAddress"] = other["a"]["baseAddress"]
        if self.chance(0.3):
            self.r.shuffle(d["kids"])
        self.derive(d)
        return d

    def cpu(self):
        c = {"name": self.pick(CPUS), "revision": "r0p" + str(self.between(0, 3)),
             "endian": self.pick("little", "big", "selectable", "other"),
             "nvicPrioBits": self.pick(0, self.between(2, 8)), "vendorSystickConfig": self.pick("true", "false", "0", "1")}
        for key in ("mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent",
                    "dtcmPresent", "vtorPresent"):
            if self.chance(0.35):
                c[key] = self.pick("true", "false", "0", "1", "TRUE", "False")
        if self.chance(0.3):
            c["deviceNumInterrupts"] = self.pick(0, 1, 32, 240, self.between(0, 480))
        if self.chance(0.3):
            c["sauNumRegions"] = self.pick(0, 0, self.between(0, 8))
        if self.chance(0.4):
            s = {"regions": []}
            if self.chance(0.5):
                s["enabled"] = self.pick("true", "false", "1", "0")
            if self.chance(0.5):
                s["protectionWhenDisabled"] = self.pick(PROTECTION)
            for _ in range(self.between(0, 3)):
                lo = self.pick(0, 0x20000000, 0xE0000000, 1 << 33)
                reg = {"base": lo, "limit": lo + self.pick(0, 0x1F, 0xFFFF) if self.chance(0.9) else lo // 2, "access": self.pick("c", "n")}
                if self.chance(0.5):
                    reg["enabled"] = self.pick("true", "false")
                if self.chance(0.5):
                    reg["name"] = "SAU" + str(self.between(0, 3))
                s["regions"].append(reg)
            c["sauRegionsConfig"] = s
        return c

    # --- derivation ----------------------------------------------------------------------------------------------
    def derive(self, d):
        flat = []

        def walk(n, parents):
            flat.append((n, parents))
            for k in n["kids"]:
                walk(k, parents + [n])

        for n in d["kids"]:
            walk(n, [])
        rank = {}
        for i, (n, parents) in enumerate(flat):  # an element depends on what contains it
            own = self.r.random() if self.chance("forward") else i / (len(flat) + 1)
            rank[id(n)] = own + (rank[id(parents[-1])] if parents else 0)
        for n, parents in sorted(flat, key=lambda item: rank[id(item[0])]):
            if not self.chance("derive") or n.get("twin") or n.get("gone"):
                continue
            if n["k"] == "enumc" and len(parents[-1]["kids"]) > 1 and not self.chance("enum_bad"):
                continue
            same = [(m, ps) for m, ps in flat if m["k"] == n["k"] and m is not n and "name" in m["a"]
                    and not m.get("gone")]
            lower = [(m, ps) for m, ps in same if rank[id(m)] < rank[id(n)] and not any(x is m for x in parents)]
            near = [(m, ps) for m, ps in lower if ps and parents and ps[-1] is parents[-1] or not ps and not parents]
            if self.chance("any_target") and same:
                target = self.pick(same)
            elif near and self.chance(0.5):
                target = self.pick(near)
            elif lower:
                target = self.pick(lower)
            else:
                continue
            m, ps = target
            if m.get("twin"):
                continue
            parts = [self.refer(x) for x in ps] + [self.refer(m)]
            sibling = (ps[-1] if ps else None) is (parents[-1] if parents else None)
            if sibling and not self.chance(self.p["path_full"] * 0.6):
                parts = parts[-1:]
            elif 0 < len(parents) < len(ps) and all(x is y for x, y in zip(ps, parents)) and not self.chance(0.3):
                parts = parts[len(parents):]  # within a sibling
            if self.chance("bad_path"):
                parts = self.pick([["Nowhere"], parts[1:] or ["X"], parts + ["Z"], parts[:-1] + ["Nowhere"], parts[:-1] + [""],
                                   parts[:-1] + [parts[-1].swapcase()], [parts[0].swapcase()] + parts[1:],
                                   parts[:-1] + [parts[-1] + "0"], parts[:-1] + [parts[-1][:-1]], [""] + parts,
                                   parts[:-1] + [""] + parts[-1:], [parts[0] + " "] + parts[1:] if parts[1:] else ["%s"],
                                   parts[:-1] + [" " + parts[-1]] if parts[1:] else [parts[0] + "%s"]])
            n["derived"] = ".".join(parts)
            n["base"] = m
            self.strip_derived(n, m if parts[-1] == m["a"]["name"] else {**m, "a": {
                k: v for k, v in m["a"].items() if k not in ("dim", "dimIncrement", "dimIndex")}})

    def refer(self, m):
        """A name a path can use for m: as written or one of its instances."""
        a = m["a"]
        name = a.get("name", "X")
        if "dim" in a and "%s" in name and self.chance(0.5):
            i = self.between(0, max(0, a["dim"] - 1))
            if "[%s]" in name:
                return name.replace("[%s]", str(i))
            text = a.get("dimIndex")
            if text is None:
                return name.replace("%s", str(i))
            if "," in text:
                opts = [t.strip() for t in text.split(",")]
            elif "-" in text[1:] and len(text.split("-")) == 2 and all(text.split("-")):
                lo, hi = text.split("-")
                opts = [str(x) for x in range(int(lo), int(hi) + 1)] if lo.isdigit() and hi.isdigit() else \
                    [chr(x) for x in range(ord(lo[0]), ord(hi[0]) + 1)]
            else:
                opts = [text]
            return name.replace("%s", opts[min(i, len(opts) - 1)] if opts else "0")
        return name

    def strip_derived(self, n, m):
        """A derived element states less than a complete one."""
        a = n["a"]
        keep = self.p["own_after_derive"]
        must = {"name", "addressOffset", "baseAddress", "interrupt"}
        if n["k"] == "enumc":
            if self.chance(0.7):
                n["vals"] = []
            return
        for key in list(a):
            if key in must or key in ("dim", "dimIncrement", "dimIndex"):
                continue
            if key in ("bitOffset", "bitWidth", "lsb", "msb", "bitRange"):
                continue
            if not self.chance(keep):
                if key == "addressBlock":
                    a[key] = []
                else:
                    del a[key]
        halves = [k for k in ("bitOffset", "bitWidth", "lsb", "msb") if k in a]
        if len(halves) == 2 and not self.defaults and self.chance(0.4):
            del a[self.pick(halves)]
        # dim, dimIncrement and dimIndex come from the base unless the element states its own
        if "dim" in m["a"]:
            if "dim" in a and "%s" in a["name"]:
                for key in ("dim", "dimIncrement", "dimIndex"):
                    if self.chance(0.3):
                        a.pop(key, None)
                if ("dim" in a) != ("dimIndex" in a) and "[%s]" not in a["name"] and self.chance(0.9):
                    for key in ("dim", "dimIndex"):
                        a.pop(key, None)
            elif "%s" not in a["name"] and self.chance(0.85):
                a["name"] += "[%s]" if "[%s]" in m["a"]["name"] else "%s"
        if n["k"] == "register" and ("%s" in a["name"] or "%s" in m["a"]["name"]) and self.chance(0.9):
            a.pop("displayName", None)
            if "displayName" in m["a"] and self.chance(0.5):
                a["displayName"] = a["name"]
        if not self.chance(keep):
            self.drop_kids(n)
        elif n["k"] == "field" and (m["kids"] or m["derived"]) and not self.chance("enum_bad"):
            self.drop_kids(n)
        elif n["kids"] and m["kids"] and self.chance(0.7):
            names = {k["a"].get("name") for k in m["kids"]}
            for k in n["kids"]:
                if k["a"].get("name") in names - {None}:
                    k["a"]["name"] = "X" + k["a"]["name"]
            if self.chance(0.85):
                for k in n["kids"]:
                    self.move_away(k["a"])

    def drop_kids(self, n):
        for k in n["kids"]:
            k["gone"] = True
            self.drop_kids(k)
        n["kids"] = []

    def move_away(self, a):
        """Moves an own child of a derived element behind what the base contributes."""
        for key in ("lsb", "msb", "bitOffset"):
            if key in a:
                a[key] += 13
        if a.get("bitRange", "").startswith("[") and ":" in a["bitRange"]:
            hi, lo = a["bitRange"][1:-1].split(":") if a["bitRange"].endswith("]") else ("", "")
            if hi.isdigit() and lo.isdigit():
                a["bitRange"] = "[%d:%d]" % (int(hi) + 13, int(lo) + 13)
        if "addressOffset" in a:
            a["addressOffset"] += 0x100

    # --- rendering -----------------------------------------------------------------------------------------------
    def xml(self, d, attrs='xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" '
                           'xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd" schemaVersion="1.3"', pretty=None):
        out = []
        pretty = self.chance(0.5) if pretty is None else pretty
        nl = "\n" if pretty else ""

        def leaf(tag, v):
            if isinstance(v, bool):
                v = "true" if v else "false"
            text = self.num(v) if isinstance(v, int) else esc(v)
            out.append(f"<{tag}>{text}</{tag}>{nl}")

        def leaves(a, keys):
            for k in keys.split():
                if k in a:
                    leaf(k, a[k])

        def dims(a):
            for k in ("dim", "dimIncrement"):
                if k in a:
                    leaf(k, a[k])
            leaves(a, "dimIndex dimName")
            if "dimArrayIndex" in a:
                out.append("<dimArrayIndex>")
                if self.chance(0.5):
                    leaf("headerEnumName", "HEN")
                for v in a["dimArrayIndex"]:
                    value(v)
                out.append("</dimArrayIndex>" + nl)

        def value(v):
            out.append("<enumeratedValue>")
            leaves(v, "name description value isDefault")
            out.append("</enumeratedValue>" + nl)

        def constraint(a):
            c = a.get("writeConstraint")
            if c is None:
                return
            out.append("<writeConstraint>")
            leaves(c, "writeAsRead useEnumeratedValues")
            if "range" in c:
                out.append("<range>")
                leaf("minimum", c["range"][0])
                leaf("maximum", c["range"][1])
                out.append("</range>")
            out.append("</writeConstraint>" + nl)

        def listed(tag, kids):
            out.append(f"<{tag}>" + nl)
            for i, k in enumerate(kids):
                if i and self.p["split"] and self.chance("split"):  # the rest in a list of its own
                    out.append(f"</{tag}>{nl}<{tag}>{nl}")
                element(k)
            out.append(f"</{tag}>" + nl)

        def element(n):
            a, kind = n["a"], n["k"]
            tag = "enumeratedValues" if kind == "enumc" else kind
            out.append(f"<{tag}" + (f' derivedFrom="{esc(n["derived"])}"' if n["derived"] is not None else "") + ">" + nl)
            if kind == "enumc":
                leaves(a, "name headerEnumName usage")
                for v in n.get("vals", []):
                    value(v)
            else:
                dims(a)
                if kind == "peripheral":
                    leaves(a, "name version description alternatePeripheral groupName prependToName appendToName "
                              "headerStructName disableCondition baseAddress size access protection resetValue resetMask")
                    for b in a["addressBlock"]:
                        out.append("<addressBlock>")
                        leaves(b, "offset size usage protection")
                        out.append("</addressBlock>" + nl)
                    for i in a["interrupt"]:
                        out.append("<interrupt>")
                        leaves(i, "name description value")
                        out.append("</interrupt>" + nl)
                    if n["kids"] or self.chance(0.1):
                        listed("registers", n["kids"])
                elif kind == "cluster":
                    leaves(a, "name description alternateCluster headerStructName addressOffset size access protection "
                              "resetValue resetMask")
                    for k in n["kids"]:
                        element(k)
                elif kind == "register":
                    leaves(a, "name displayName description alternateGroup alternateRegister addressOffset size access "
                              "protection resetValue resetMask dataType modifiedWriteValues")
                    constraint(a)
                    leaves(a, "readAction")
                    if n["kids"] or self.chance(0.03):
                        listed("fields", n["kids"])
                else:
                    leaves(a, "name description bitOffset bitWidth lsb msb bitRange access modifiedWriteValues")
                    constraint(a)
                    leaves(a, "readAction")
                    for k in n["kids"]:
                        element(k)
            out.append(f"</{tag}>" + nl)

        a = d["a"]
        out.append(f"<device {attrs}>" + nl)
        leaves(a, "vendor vendorID name series version description licenseText")
        if "cpu" in a:
            c = a["cpu"]
            out.append("<cpu>" + nl)
            leaves(c, "name revision endian mpuPresent fpuPresent fpuDP dspPresent icachePresent dcachePresent "
                      "itcmPresent dtcmPresent vtorPresent nvicPrioBits vendorSystickConfig deviceNumInterrupts "
                      "sauNumRegions")
            if "sauRegionsConfig" in c:
                s = c["sauRegionsConfig"]
                at = "".join(f' {k}="{s[k]}"' for k in ("enabled", "protectionWhenDisabled") if k in s)
                out.append(f"<sauRegionsConfig{at}>")
                for reg in s["regions"]:
                    at = "".join(f' {k}="{reg[k]}"' for k in ("enabled", "name") if k in reg)
                    out.append(f"<region{at}>")
                    leaves(reg, "base limit access")
                    out.append("</region>")
                out.append("</sauRegionsConfig>")
            out.append("</cpu>" + nl)
        leaves(a, "headerSystemFilename headerDefinitionsPrefix addressUnitBits width size access protection resetValue "
                  "resetMask")
        out.append("<peripherals>" + nl)
        for n in d["kids"]:
            element(n)
        out.append("</peripherals>" + nl + "</device>")
        return "".join(out)


def esc(s):
    return (s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")
            .replace("\r", "&#13;"))


def generator(seed, limit=400, **profile):
    """A generator and a device of bounded size."""
    while True:
        g = Gen(seed, **profile)
        d = g.device()
        if g.expanded(d) <= limit:
            return g, d
        seed += "'"


def document(seed, **profile):
    g, d = generator(seed, **profile)
    return g.xml(d).encode()
