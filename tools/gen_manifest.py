#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and contracts/roots.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = json.load(open(V + "/contracts/roots.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    c = R["properties"][p["id"]]
    if not c.get("roots"):
        na.append({"property": p["id"], "reason": c.get("reason", "no function this property depends on is under contract yet (work in progress)")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.py " + p["id"],
        "thorough_cmd": "./check.py %s --thorough" % p["id"],
        "technique": c.get("technique", "contract-based deductive verification of the extracted real code (Verus/Z3); bounded search for a failing input and as labelled stand-in"),
        "level": c["level"],
        "level_note": c["note"],
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the extractor reads /repo/src, the bounded search uses the public API. Defects found and repaired are listed in known_findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
