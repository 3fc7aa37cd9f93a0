#!/usr/bin/env python3
"""writes MANIFEST.json from registry.py and properties.jsonl"""
import json, os, re
from registry import PROPS, NOT_APPLICABLE
R = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in PROPS and os.path.exists("%s/harness/src/%s.rs" % (R, PROPS[p]["module"])):
        x = PROPS[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
            evidence_file="evidence/%s.json" % p, technique="symbolic execution of the compiled code (LLVM IR), deciding each assertion with Z3",
            level="model_checking",
            level_note="Holds for all values within: %s. Not covered: %s. Trusts: rustc's LLVM IR (dev semantics: overflow checks on), the symbolic executor in engine/, Z3; counterexamples and sampled paths are replayed natively." % (x["bounds"], x["outside"])))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="See DESIGN.md. The library is executed symbolically as compiled from /repo on every run; /repo needs no hooks."), open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
