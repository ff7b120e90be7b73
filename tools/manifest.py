#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PLAN:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "technique": TECHNIQUE.get(i, TECHNIQUE[""]), "level": "model_checking", "level_note": NOTE.get(i, NOTE[""])})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
m["notes"] = ("TLA+ specification in spec/, checked with TLC; conformance by replaying the cases and behaviours TLC enumerates "
              "(harness/) and judging the recorded traces with TLC against the specification. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
