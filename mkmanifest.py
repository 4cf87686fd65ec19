#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the harnesses that exist."""
import json, re, glob, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(here + "/harness/*/*.go"))
have = set(re.findall(r"(?m)^func (C\d\d)_\w*\(\)", src))
notes = json.load(open(here + "/level_notes.json"))
na = json.load(open(here + "/not_applicable.json"))
checks = []
for p in props:
    i = p["id"]
    if i in have and i not in na:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the Go SSA of the real code, every branch and assertion decided by an SMT solver (cvc5, z3) over bit-vectors; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes.get(i, "") + " Bounded: holds for all inputs within the bounds stated per harness in the evidence; the store, the clock, and other I/O are models (assumptions.txt), sampled paths are replayed against the compiled code.",
        })
    else:
        na.setdefault(i, "harness not built yet")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": na[p["id"]]} for p in props if p["id"] in na],
     "notes": "No hooks in /repo: harnesses are laid over the tree with an overlay. Repairs are the commits starting 'fix:' (known_findings.txt)."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
