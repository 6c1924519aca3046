#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, checked with TLC; harness/ records executions of /repo, tools/check.py drives both. No hooks in /repo: only public behaviour is observed."}
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i,
                        "evidence_file": "evidence/%s.json" % i, "technique": c.technique, "level": c.level, "level_note": c.note})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
