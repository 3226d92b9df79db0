#!/usr/bin/env python3
"""MANIFEST.json from the registry of checks (checks/specs.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "checks"))
import specs, run
TECH = "symbolic execution of the compiled library's LLVM IR with GF(2)-polynomial bit terms; z3 decides feasibility and residual assertions; counterexamples replayed natively"
WHY = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i not in specs.REG: na.append(dict(property=i, reason=WHY.get(i, "no check yet"))); continue
    s = specs.get(i, "thorough", run.Inst); q = specs.get(i, "quick", run.Inst)
    checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=s.get("technique", TECH), level="model_checking",
        level_note="Bounded: every value of the symbolic inputs within: %s. %sTrusted: clang front end, the engine (polynomial normal form, z3 4.8), the model of libm4ri in m4ri_model/ (sampled against the real library on each run)." % (s["bounds"], ("Outside: " + s["outside"] + ". ") if s.get("outside") else "")))
json.dump(dict(version=1, setup_cmd="python3 checks/run.py --setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
