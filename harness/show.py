"""show.py <replay.json>: the calls of a replay and where recorded and expected objects differ."""
import json
import sys

import tlc


def flat(v, at=""):
    if isinstance(v, dict):
        for k in v:
            yield from flat(v[k], f"{at}.{k}")
    elif isinstance(v, list) and not (v and all(isinstance(x, int) for x in v)):
        for i, x in enumerate(v):
            name = x.get("a", {}).get("name", i) if isinstance(x, dict) else i
            yield from flat(x, f"{at}[{name}]")
    else:
        yield at, v


r = json.load(open(sys.argv[1]))
print(r["case"], r["clauses"][:6])
mem = {}
for n, e in enumerate(r["events"], 1):
    print(n, {k: (v if k not in ("val",) else f"<{len(json.dumps(v))}>") for k, v in e.items()})
    if "to" in e:
        mem[e["to"]] = e["val"]
    if e["op"] == "same" and e["out"] == e["out2"] == "ok":
        a, b = dict(flat(mem[e["from"]])), dict(flat(mem[e["from2"]]))
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                print("   ", k, a.get(k), b.get(k))
