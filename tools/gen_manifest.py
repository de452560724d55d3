#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and the properties file."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = "symbolic execution of the crate's LLVM IR (regenerated from /repo), every path condition and assertion decided by z3/cvc5 within stated bounds; counterexamples replayed natively"
m = {"version": 1, "setup_cmd": "python3 tools/vc.py engine", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "technique": T, "level": "model_checking",
            "level_note": "Exhaustive within bounds: %s. Outside: %s." % (PROPS[i]["bounds"], PROPS[i].get("outside", "larger inputs"))})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
