#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "bin"))
import specs
NA = specs.NOT_APPLICABLE
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid in specs.SPECS:
        s = specs.SPECS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 bin/check.py %s" % pid, thorough_cmd="python3 bin/check.py %s --tier thorough" % pid,
            technique=s.get("technique", specs.TECHNIQUE), level="model_checking", level_note=s["bounds"]))
    else: na.append(dict(property=pid, reason=NA.get(pid, "check under construction")))
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
