#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vf import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
sys.path.insert(0, os.path.join(V, "tools"))
from tools_tech import TECH
NOTE = ("TLA+ specification checked by TLC within the stated bounds; its behaviours are replayed in the real code and "
        "recorded runs of the real code are accepted or rejected by a trace specification. Assurance extends to the inputs "
        "and fault points explored; TLC, the CommunityModules JSON reader and the driver's recording are trusted.")
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks observe the public API and the tools' outputs",
               "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "One driver (check.py) for all checks; specifications in spec/, see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.REGISTRY:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": TECH[i],
                            "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check for this property is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
