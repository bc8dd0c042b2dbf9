#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/meta.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/checks/meta.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ with TLC. Every check is 'run.py <id>': TLC checks the specification, the harness runs the real code, TLC judges the record. No hooks in /repo: the harness is a black box user of the exported API and of sockets."}
for p in props:
    if p in meta:
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "python3 run.py " + p,
                            "technique": meta[p]["technique"], "level": "model_checking", "level_note": meta[p]["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "its check is still being built"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
