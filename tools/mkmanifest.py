#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOTES
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = NOTES.get(i, NOTES["default"])
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason=NOTES.get("na:" + i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="All checks run the real code built from /repo's working tree; no hooks in /repo are needed (the allocation shim is force-included by the build in /verif)."),
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
