#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "C40": "value equality of a round trip quantifies over the contents of arbitrary documents; no sound static argument in reach bounds it (the member tables it rests on are decided by C30)",
 "C41": "the enumerator's completeness is an arithmetic-combinatorial fact about a permutation-style loop for every length; dataflow abstractions cannot bound it",
 "C42": "the property is about the RDF canonicalisation algorithm of a third-party module outside this repository",
}
exec(open(os.path.join(here, "tools", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: a path-sensitive dataflow engine over the SSA form of /repo's current sources (see DESIGN.md). No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
