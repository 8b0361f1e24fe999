#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs as J
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for p in ids:
    if p not in J.PROPS:
        NA[p] = "no check has been built for this property yet"
        continue
    checks.append({
        "property": p,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "technique": "symbolic execution of the LLVM IR compiled from the real headers, assertions decided by Z3 (QF_BV), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "All paths within: %s. Trusts clang's IR, the engine (sampled paths are replayed natively and must agree) and Z3; types outside the instrumented families are not covered." % J.bounds(p, "quick"),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
