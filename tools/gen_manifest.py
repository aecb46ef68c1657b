#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        s = PLAN[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=s.get("technique", "runtime monitoring: oracle over monitored executions of randomised stress workloads"), level="exploration",
                           level_note="Held on the executions observed (see the evidence file for their number and kind); says nothing of what was not executed. Assumes: " + "; ".join(s["assumptions"]) + "."))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything is observed through the library's public traits, the models' own modules and the built programs."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
