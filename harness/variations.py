"""The documents TLC enumerates from Variations.tla, as XML."""

import concurrent.futures
import json
import random

import gen
import project
import tlc

SCOPES = {
    "inherit": ["prop-derived-size", "prop-derived-access", "no-block", "dim-derived", "dim-chain", "inherit-peripheral",
                "inherit-cluster", "inherit-register", "inherit-field"],
    "dim": ["dims", "dim-displays", "dim-derived", "dim-chain"],
    "props": ["prop-size", "prop-access", "prop-protection", "prop-reset", "prop-mask", "odd-size", "prop-peripheral-size",
              "prop-peripheral-reset", "prop-cross"],
    "address": ["clusters", "blocks", "no-block"],
    "enum": ["enum-values", "enum-singles", "enum-usages", "enum-derived"],
    "field": ["field-own", "field-derived", "field-pairs"],
    "integrity": ["siblings", "no-block", "field-pairs", "alt-groups"],
    "overlap": ["reg-pairs", "reg-triples", "clusters", "blocks", "peripheral-triples"],
    "cpu": ["cpus", "devices"],
    "stated": ["inherit-peripheral", "inherit-cluster", "inherit-register", "inherit-field", "cpus", "devices", "enum-derived", "dim-derived"],
    "mapped": ["clusters", "blocks", "peripheral-triples", "field-pairs", "alt-groups", "dim-chain"],
    "converted": ["inherit-peripheral", "inherit-register", "inherit-field", "cpus", "enum-usages", "enum-values", "prop-peripheral-size", "clusters"],
}


def canonical(value):
    """A JSON text; an empty record and an empty sequence are the same to TLC."""
    def plain(v):
        if isinstance(v, dict):
            return {k: plain(x) for k, x in v.items()} or []
        return [plain(x) for x in v] if isinstance(v, list) else v
    return json.dumps(plain(value), sort_keys=True)


def enumerate_scope(which, limit_s=900):
    code, out = tlc.model("Laws", "Spec", {"Which": f'"{which}"'}, invariants=("Told", "Lawful"), workers=2, limit_s=limit_s)
    if code != 0:
        raise tlc.TlcError("Laws: " + out[-800:])
    found = sorted(json.loads(line)[3:] for line in out.splitlines() if line.startswith('"DOC'))
    return [{**json.loads(text), "which": which} for text in found], tlc.statistics(out)


def enumerate_all(topic):
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        return list(pool.map(enumerate_scope, SCOPES[topic]))


KEYS = {"vendor_id": "vendorID", "fpu_dp": "fpuDP", "icache_present": "icachePresent"}


def key(k):
    head, *rest = k.split("_")
    return KEYS.get(k) or head + "".join(w.capitalize() for w in rest)


def attributes(a, table):
    """The attributes of a record of the specification as the generator has them."""
    kinds = dict(item.split(":") for item in project.PARSED[table].split())
    return {key(k): project.unnat(v) if kinds[k] == "n" else v for k, v in a.items() if k in kinds and k != "derived_from"}


def record(a):
    return a or {}


def node(n):
    a, kind = record(n["a"]), n["k"]
    out = {"k": kind, "a": attributes(a, kind), "kids": [node(x) for x in n["kids"]], "derived": a.get("derived_from")}
    if kind == "peripheral":
        out["a"]["addressBlock"] = [attributes(b, "block") for b in a["address_blocks"]]
        out["a"]["interrupt"] = [attributes(i, "interrupt") for i in a["interrupts"]]
    if "write_constraint" in a:
        out["a"]["writeConstraint"] = attributes(a["write_constraint"], "constraint")
    if kind == "enumc":
        out["vals"] = [attributes(record(v), "value") for v in a["values"]]
    return out


def truth(v):
    return {True: "true", False: "false"}.get(v, v) if isinstance(v, bool) else v


def xml(pd):
    a = attributes(record(pd["a"]), "device")
    schema = a.pop("schemaVersion")
    location = a.pop("xsNoNamespaceSchemaLocation")
    if pd["cpu"]:
        c = pd["cpu"][0]
        a["cpu"] = attributes(c, "cpu")
        if "sau_regions_config" in c:
            s = c["sau_regions_config"]
            a["cpu"]["sauRegionsConfig"] = {
                **{k: truth(v) for k, v in attributes(s, "sau").items()},
                "regions": [{k: truth(v) for k, v in attributes(record(x), "region").items()} for x in s["regions"]]}
    g = gen.Gen("v", numbers=0)
    g.chance = lambda _: False
    return g.xml({"a": a, "kids": [node(n) for n in pd["kids"]]}, pretty=False,
                 attrs='xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" '
                       f'xs:noNamespaceSchemaLocation="{location}" schemaVersion="{schema}"')


def shuffled(scopes, seed):
    docs = [doc for found, _ in scopes for doc in found]
    random.Random(f"varied{seed}").shuffle(docs)
    return docs
