"""The small documents TLC enumerates from Documents.tla, as XML."""

import concurrent.futures
import random
import re

import tlc

UPPER = ("peripheral", "cluster", "register")
LOWER = ("peripheral", "register", "field", "enumc")
FLAT = ("peripheral", "register")


def scope(nodes, paths, kinds, dims=False, groups=False, peripherals=1):
    return dict(MaxNodes=nodes, MaxPaths=paths, Kinds="{%s}" % ", ".join(f'"{k}"' for k in kinds),
                Dims="{TRUE}" if dims else "{}", Groups='{"g"}' if groups else "{}", Peripherals=peripherals)


SCOPES = {
    "quick": [scope(4, 2, UPPER, peripherals=2), scope(5, 2, LOWER), scope(5, 2, FLAT, groups=True),
              scope(4, 1, FLAT, dims=True, peripherals=2), scope(3, 1, UPPER, dims=True),
              scope(4, 1, LOWER, dims=True)],
    "thorough": [scope(4, 3, UPPER, peripherals=2), scope(5, 2, LOWER), scope(5, 3, FLAT, groups=True),
                 scope(4, 2, FLAT, dims=True, peripherals=2), scope(4, 1, UPPER, dims=True), scope(5, 2, UPPER),
                 scope(5, 1, LOWER, dims=True), scope(6, 1, LOWER)],
}


def enumerate_scope(constants, limit_s=900):
    """(fate, line, elements) of every document, and the statistics of TLC."""
    code, out = tlc.model("Documents", "Spec", constants, invariants=("Told",), workers=3, limit_s=limit_s)
    if code != 0:
        raise tlc.TlcError("Documents: " + out[-800:])
    found = set()
    for m in re.finditer(r'^"DOC(\w+) (.*)\|<<(<<.*>>)>>"$', out, re.M):
        elements = re.findall(r'<<\\"(\w+)\\", (\d+), \\"(\w+)\\", (TRUE|FALSE), \\"(\w*)\\", \\"([\w.%\[\]]*)\\">>', m[3])
        found.add((m[1], m[2], tuple((k, int(p), n, d == "TRUE", g, path) for k, p, n, d, g, path in elements)))
    return sorted(found), tlc.statistics(out)


def enumerate_all(tier):
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        return list(pool.map(enumerate_scope, SCOPES[tier]))


def choose(scopes, seed):
    """All documents in an order drawn at random, of which every beginning is spread over the scopes and fates."""
    r = random.Random(f"small{seed}")
    piles = {}
    for n, (docs, _) in enumerate(scopes):
        for fate, line, elements in docs:
            piles.setdefault((n, fate, line if fate == "no" else ""), []).append((fate, line, elements))
    placed = []
    for pile in piles.values():
        r.shuffle(pile)
        placed += [((i + r.random()) / len(pile) ** 0.5, doc) for i, doc in enumerate(pile)]
    placed.sort()
    return [doc for _, doc in placed]


def line(items):
    """A processed device in one line, as the model writes it."""
    out = []
    for x in items:
        if hasattr(x, "enumerated_values"):
            out.append("[" + "".join(v.name + ";" for v in x.enumerated_values) + "]")
            continue
        kids = next((getattr(x, a) for a in ("registers_clusters", "fields", "enumerated_value_containers") if hasattr(x, a)), [])
        group = getattr(x, "alternate_group", None)
        out.append(f"{x.name}@{x.lsb if hasattr(x, 'lsb') else x.base_address}" + (f"/{group}" if group else "")
                   + (f"={x.description}" if x.description else "") + "{" + line(kids) + "}")
    return "".join(out)


TAGS = {"peripheral": "peripheral", "cluster": "cluster", "register": "register", "field": "field", "enumc": "enumeratedValues"}


def xml(elements, reverse=False):
    """The document; siblings can be declared in reverse order."""
    def leaf(tag, value):
        return f"<{tag}>{value}</{tag}>"

    def element(i):
        kind, _, name, dim, group, path = elements[i - 1]
        if dim:
            name += "[%s]" if kind == "peripheral" else "%s"
        kids = [j for j in range(1, len(elements) + 1) if elements[j - 1][1] == i]
        below = "".join(map(element, reversed(kids) if reverse else kids))
        out = [f"<{TAGS[kind]}" + (f' derivedFrom="{path}"' if path else "") + ">"]
        if dim:
            out += [leaf("dim", 2), leaf("dimIncrement", {"field": 4, "peripheral": 4096}.get(kind, 256))]
        out.append(leaf("name", name))
        if not path and kind != "enumc":
            out.append(leaf("description", i))
        if group:
            out.append(leaf("alternateGroup", group))
        if kind == "peripheral":
            out += [leaf("baseAddress", hex(16384 * i)),
                    "<addressBlock><offset>0</offset><size>4096</size><usage>registers</usage></addressBlock>"]
        elif kind in ("cluster", "register"):
            out.append(leaf("addressOffset", 4 * i))
        elif kind == "field":
            out += [leaf("bitOffset", 2 * i), leaf("bitWidth", 2)]
        elif not path:
            out.append(f"<enumeratedValue><name>v{i}</name><value>{i % 4}</value></enumeratedValue>")
        wrap = {"peripheral": "registers", "register": "fields"}.get(kind)
        out.append(f"<{wrap}>{below}</{wrap}>" if wrap and below else below)
        return "".join(out) + f"</{TAGS[kind]}>"

    tops = [i for i in range(1, len(elements) + 1) if elements[i - 1][1] == 0]
    return ('<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" schemaVersion="1.3"><name>D</name><version>1</version>'
            "<description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals>"
            + "".join(map(element, reversed(tops) if reverse else tops)) + "</peripherals></device>")
