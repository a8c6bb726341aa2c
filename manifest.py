#!/usr/bin/env python3
"""Writes MANIFEST.json from rules.py and properties.jsonl."""
import json, os
from rules import RULES, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "make -s -j8 -C tools", "checks": [], "not_applicable": [],
     "notes": "Every check compiles /repo's current sources to LLVM bitcode with the flags of the real build and analyses that; nothing of /repo is executed."}
for i in ids:
    if i in RULES:
        r = RULES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": r["technique"], "level": "other",
                            "level_note": r["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
