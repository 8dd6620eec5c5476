"""Decides a property: check.py <property> [--thorough].

Exit 0: the property held on everything explored; 1: a violation, printed with a replay file; 2: no answer.
"""

import collections
import hashlib
import json
import multiprocessing
import os
import random
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import plans  # noqa: E402
import tlc  # noqa: E402

SHARD = 120
WORKERS = 8
MEMORY = 3 << 30
LARGE = 400_000  # characters of a recorded case


def make(job):
    """Record the cases of a shard and check them against the specification."""
    family, seed, indices = job
    import families
    families.record.call.limit = families.record.CALL_LIMIT_S
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    cases, kept = [], []
    stats = collections.Counter()
    seen = []
    for i in indices:
        case = families.FAMILIES[family](seed, i)
        if case is None or not case.events:
            stats["empty"] += 1
            continue
        text = json.dumps(case.events, sort_keys=True)
        if len(text) > LARGE:
            stats["large"] += 1
            continue
        kept.append(i)
        cases.append({"id": case.id, "events": case.events})
        for e in case.events:
            stats["%s:%s" % (e["op"], e.get("out", e.get("what", "")))] += 1
        seen.append(hashlib.sha1(text.encode()).hexdigest())
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    bad, steps = judge(cases, families.MODULES.get(family, "Conform"))
    where = {c["id"]: i for c, i in zip(cases, kept)}
    for b in bad:
        b.update(family=family, seed=seed, index=where.get(b["case"], -1))
        b["events"] = next(c["events"] for c in cases if c["id"] == b["case"])
    sample = cases[0]["id"] if cases else None
    return bad, steps, len(cases), stats, seen, sample


def judge(cases, module="Conform"):
    if not cases:
        return [], 0
    try:
        return tlc.conform(cases, module)
    except tlc.TlcError as exc:
        if len(cases) == 1:
            if "Attempted to" in str(exc) or "non-enumerable" in str(exc):
                # what was recorded is not even of the type the specification gives it
                return [{"case": cases[0]["id"], "event": 0, "op": "any", "clause": "type", "where": str(exc)[:300],
                         "key": "type"}], 0
            if "no answer" in str(exc):
                return [], 0
            return [{"case": cases[0]["id"], "event": 0, "op": "any", "clause": "unexplained", "where": str(exc)[:300],
                     "key": "tlc"}], 0
        half = len(cases) // 2
        a, b = judge(cases[:half], module), judge(cases[half:], module)
        return a[0] + b[0], a[1] + b[1]


def shards(plan, seed, scale):
    for family, count in plan:
        n = count if family in plans.FINITE else max(1, int(count * scale))
        ids = list(range(n))
        size = plans.SHARDS.get(family, SHARD)
        for i in range(0, n, size):
            yield family, seed, ids[i:i + size]


def known_findings():
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known:"):
                    head, _, what = line[6:].strip().partition(" | ")
                    fields = dict(item.split("=", 1) for item in head.split())
                    out.append((fields, what))
    return out


def matches(fields, prop, bad):
    return fields.get("property") == prop and all(
        str(bad.get(k)) == v for k, v in fields.items() if k != "property")


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = plans.PLANS[prop]
    scale = spec.get("thorough_scale", 12) if thorough else 1
    scale *= float(os.environ.get("SVD_SCALE", "1"))
    began = time.time()

    bad, steps, cases, stats, seen, samples = [], 0, 0, collections.Counter(), set(), []
    models = []
    failed = None
    if "prepare" in spec:
        import families
        models += families.PREPARE[spec["prepare"]](tier, seed)
    with multiprocessing.get_context("fork").Pool(WORKERS, maxtasksperchild=4) as pool:
        model_jobs = [pool.apply_async(plans.run_model, run) for run in plans.model_runs(spec, tier)]
        jobs = list(shards(spec["plan"], f"s{seed}", scale))
        try:
            for b, s, n, st, hashes, sample in pool.imap_unordered(make, jobs):
                bad += [x for x in b if plans.relevant(spec, x)]
                stats["other clauses"] += sum(not plans.relevant(spec, x) for x in b)
                steps += s
                cases += n
                stats += st
                seen.update(hashes)
                if sample and len(samples) < 12:
                    samples.append(sample)
            for m in model_jobs:
                models.append(m.get())
        except tlc.TlcError as exc:
            failed = str(exc)
    if failed:
        print("NO ANSWER:", failed)
        return 2

    for m in models:
        if m["violation"]:
            bad.append({"case": "model " + m["model"], "event": 0, "op": "model", "clause": "model", "where": m["violation"],
                        "key": m["model"], "family": "model", "seed": "", "index": -1, "events": []})

    report = 0
    findings = known_findings()
    told = set()
    replay_dir = os.path.join(ROOT, "evidence", "replay", prop)
    fresh = collections.OrderedDict()
    for b in sorted(bad, key=lambda b: (len(json.dumps(b["events"])), b["case"])):
        known = [what for fields, what in findings if matches(fields, prop, b)]
        if known:
            if known[0] not in told:
                told.add(known[0])
                print(f"KNOWN-FINDING: property={prop} {known[0]}")
            continue
        fresh.setdefault(b["case"], []).append(b)
    for n, (case, bs) in enumerate(fresh.items()):
        report += 1
        if n >= 5:
            continue
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, f"{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": case, "family": bs[0]["family"], "seed": bs[0]["seed"],
                       "index": bs[0]["index"], "events": bs[0]["events"],
                       "clauses": [{k: b[k] for k in ("event", "op", "clause", "where", "key")} for b in bs]}, f)
        print(f"VIOLATION property={prop} replay={path}")
        for b in bs[:4]:
            print(f"  {b['case']} call {b['event']} ({b['op']}): {b['clause']} {b['where']} {b['key']}")

    wall = time.time() - began
    model_states = sum(m["states"] for m in models)
    model_transitions = sum(m["generated"] for m in models)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": steps + model_states,
            "transitions": max(steps - 1, 0) + model_transitions,
            "traces_validated_against_impl": cases,
            "samples": samples or [m["model"] for m in models],
            "distinct_traces": len(seen),
            "calls": {k: v for k, v in sorted(stats.items())},
            "models": [{k: m[k] for k in ("model", "states", "generated", "config")} for m in models],
            "plan": [[f, n] for f, n in spec["plan"]],
        },
        "assumptions": plans.ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": report,
    }
    if spec["level"] == "exploration":
        evidence["coverage"].update(evaluations=cases, distinct_nontrivial=len(seen), rule=plans.RULE)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{prop} {tier}: {cases} traces, {steps} steps, {len(models)} models ({model_states} states), "
          f"{report} violations, {wall:.0f} s")
    return 1 if report else 0


if __name__ == "__main__":
    random.seed(0)
    sys.exit(main())
