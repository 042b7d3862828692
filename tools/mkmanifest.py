#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from registry import PROPS
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in PROPS:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": PROPS[p]["technique"], "level": "model_checking",
                            "level_note": PROPS[p]["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "no check built yet"})
m["notes"] = "TLA+ specifications in spec/, checked with TLC; harness/ and harness-lbf/ record behaviours of the real code that TLC checks against them. No hooks in /repo: only its public API is used. See DESIGN.md."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
