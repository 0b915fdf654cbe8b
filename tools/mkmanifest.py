#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup",
           "hooks": {"guard": "none", "enable": "no hooks are needed: the public interfaces expose the abstract state",
                     "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
