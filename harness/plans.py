"""Which families of cases, which clauses and which models decide each property."""

import re

import small
import tlc
import variations

FINITE = {"corpus", "wide", "varied", "varied-read", "varied-written", "varied-mapped", "varied-again", "clash"}
SHARDS = {"session": 15, "replayed": 50, "replayed-reversed": 50, **{"varied" + k: 20 for k in ("", "-read", "-written", "-mapped", "-again")}, "wide": 1, "clash": 1}  # cases of a shard, where not the usual number

ASSUMPTIONS = [
    "the projection of the recorded objects (harness/project.py) is faithful: every attribute of the public model classes "
    "is read from the live object",
    "documents are read for the specification by expat, for the code under test by lxml",
    "texts are Unicode strings that both Python and TLC compare code unit by code unit",
]
RULE = ("one case is one document (generated from a seeded profile, a mutated or original document of the repository's "
        "corpus) and the calls made on it; distinct cases are those whose recorded calls differ")

DEFAULT = {"level": "model_checking", "models": (), "ops": None, "clauses": None}


def P(plan, **kw):
    return {**DEFAULT, "plan": plan, **kw}


def machine(*claims):
    """Resolution in any order, on all small documents."""
    invariants = [c for c in claims if c != "Kept"]
    return {"module": "ResolveMachine", "behaviour": "Resolution", "invariants": invariants,
            "properties": [c for c in claims if c == "Kept"],
            "quick": [small.scope(3, 2, small.UPPER, peripherals=2), small.scope(4, 1, small.FLAT, groups=True),
                      small.scope(5, 1, small.LOWER)],
            "thorough": [small.scope(4, 2, small.UPPER, peripherals=2), small.scope(4, 3, small.FLAT, groups=True),
                         small.scope(5, 2, small.LOWER), small.scope(4, 1, small.UPPER, dims=True),
                         small.scope(3, 2, small.FLAT, dims=True, peripherals=2)]}


def laws(*scopes):
    """What is to hold of processing, on documents that vary in one respect (all of them: thorough)."""
    every = sorted({w for ws in variations.SCOPES.values() for w in ws})
    return {"module": "Laws", "behaviour": "Spec", "invariants": ["Lawful"],
            "quick": [{"Which": f'"{w}"'} for w in scopes], "thorough": [{"Which": f'"{w}"'} for w in every]}


PLANS = {
    "P01": P([("read", 1500), ("read-cpu", 300), ("corpus", 171), ("varied-read", 1000)], ops={"parse", "replay"}, prepare="varied-stated"),
    "P02": P([("write", 900), ("write-cpu", 250), ("write-processed", 500), ("corpus", 171), ("varied-written", 1000)],
             ops={"serialize", "parse", "fact", "again", "replay"}, prepare="varied-stated"),
    "P03": P([("inherit", 1500), ("mix", 600), ("deep", 300), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-inherit"),
    "P04": P([("order", 500), ("order-names", 350), ("replayed-reversed", 1000)], ops={"process", "same", "replay"}, prepare="small",
             models=[machine("Confluent", "Kept"), laws("peripheral-triples", "siblings")]),
    "P05": P([("paths", 1400), ("deep", 600), ("names", 1200), ("small", 300), ("replayed", 1000)], ops={"process", "replay"}, prepare="small",
             models=[machine("Meant")]),
    "P06": P([("dim", 1300), ("dimbad", 1000), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-dim"),
    "P07": P([("props", 1600), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-props"),
    "P08": P([("address", 1600), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-address"),
    "P09": P([("enum", 1300), ("enumbad", 700), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-enum"),
    "P10": P([("field", 1300), ("fieldbad", 1000), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-field"),
    "P11": P([("integrity", 2200), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-integrity"),
    "P12": P([("overlap", 1600), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-overlap"),
    "P13": P([("map", 1200), ("varied-mapped", 1000)], ops={"map", "look", "replay"}, prepare="varied-mapped"),
    "P14": P([("reprocess", 500), ("reprocess-mix", 300), ("reprocess-overlap", 250), ("clash", 1), ("varied-again", 1000)],
             ops={"convert", "process", "same", "look", "replay"}, prepare="varied-converted"),
    "P15": P([("session", 420)], prepare="session"),
    "P16": P([("entry", 1300)]),
    "P17": P([("schema", 1500), ("schema-svd", 400)]),
    "P18": P([("damage", 3600), ("wide", 13)], ops={"attempt"}),
    "P19": P([("markup", 500), ("repairs", 900), ("broken", 700)], ops={"parse"}),
    "P20": P([("cpu", 1800), ("varied", 1000)], ops={"process", "varied"}, prepare="varied-cpu"),
    "P22": P([("origin", 1300)], ops={"process", "map"}, clauses={"origin"}),
    "P21": P([("logged", 1300)], ops={"process", "log", "same", "again", "fact"}),
}


def relevant(spec, bad):
    if bad["op"] in ("any", "model"):
        return True
    if spec["ops"] is not None and bad["op"] not in spec["ops"]:
        return False
    return spec["clauses"] is None or bad["clause"] in spec["clauses"]


def model_runs(spec, tier):
    return [(m, constants) for m in spec["models"] for constants in m[tier]]


def run_model(model, constants):
    """Model-check a module of the specification."""
    code, out = tlc.model(model["module"], model["behaviour"], constants, model.get("invariants", ()),
                          model.get("properties", ()), workers=2, limit_s=1500)
    generated, states = tlc.statistics(out)
    violation = ""
    if code != 0:
        m = re.search(r"(Invariant \S+ is violated|Temporal propert\S+ .*violated|Assumption .* is false|"
                      r"Deadlock reached|Action property \S+ is violated)", out)
        if not m:
            raise tlc.TlcError(f"{model['module']}: " + out[-800:])
        violation = m.group(1)
    return {"model": model["module"], "config": str(constants), "states": states, "generated": generated,
            "violation": violation}


NOT_APPLICABLE = {}
