#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if not p: na.append({"property": i, "reason": "check not built yet"}); continue
    checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": p.get("technique", "property-based testing: generated inputs and schedules against a reference model, with shrinking"),
                   "level": p.get("level", "exploration"), "level_note": p.get("note", "Held on every generated case of the reported number; see DESIGN.md for generators, oracle and bounds.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses under harness/ include /repo's headers and sources directly. Recorded findings and repairs: known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
