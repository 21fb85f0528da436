#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
            technique=c["technique"], level="model_checking",
            level_note="Exhaustive within bounds: " + c["bounds"] + ". Assumes: " + "; ".join(c["assumptions"]) + "."))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
