#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/*.json and NOT_APPLICABLE below."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
NA = {}
na_file = os.path.join(here, "not_applicable.json")
if os.path.exists(na_file):
    NA = json.load(open(na_file))
checks, na = [], []
for p in props:
    f = os.path.join(here, "checks", p["id"] + ".json")
    if os.path.exists(f):
        s = json.load(open(f))
        c = {
            "property": p["id"],
            "quick_cmd": "bash run.sh %s quick" % p["id"],
            "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "technique": "symbolic execution of Go SSA with SMT solving (z3), replayed counterexamples",
            "level": "model_checking",
            "level_note": "Bounded: " + s["bounds"] + " Outside: " + s["outside"],
            "evidence_file": "evidence/%s.json" % p["id"],
        }
        checks.append(c)
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Each check builds the checker in gosym/, overlays harness/ onto /repo without changing it, encodes the current source and explores every path; see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
