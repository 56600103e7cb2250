#!/usr/bin/env python3
# Rewrites MANIFEST.json from properties.jsonl and the harness directives.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = {}
for d, _, fs in os.walk(os.path.join(root, "harness")):
    for f in fs:
        if f.endswith(".go"):
            for m in re.finditer(r"//vh:.*?prop=([A-Z0-9,]+)", open(os.path.join(d, f)).read()):
                for p in m.group(1).split(","):
                    have[p] = have.get(p, 0) + 1
NA = json.load(open(os.path.join(root, "tools", "na.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
            technique="SMT-based symbolic execution of the go/ssa form of the real code (bounded), counterexamples replayed natively",
            level="model_checking",
            level_note="bounded: holds for all inputs within the sizes, shapes and loop bounds listed in evidence/%s.json; outside them nothing is claimed" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="bash check.sh setup", checks=checks, not_applicable=na,
    notes="Engine: /verif/engine (Go, go/ssa + z3/cvc5). Harnesses: /verif/harness, overlaid, never written to /repo. No hooks in /repo."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
