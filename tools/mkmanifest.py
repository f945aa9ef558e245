#!/usr/bin/env python3
"""Writes MANIFEST.json from config.PROPS and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from config import PROPS, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
TECH = ("TLA+ specification checked with TLC: small-scope models with law invariants (spec/*MC.tla) whose states are replayed into the "
        "library, and validation of recorded calls and histories (TLC-generated) against the contract module (spec/*Trace.tla)")
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": [{"property": p, "quick_cmd": "python3 /verif/tools/check.py %s --tier quick" % p,
                 "thorough_cmd": "python3 /verif/tools/check.py %s --tier thorough" % p,
                 "technique": TECH, "level": "model_checking", "level_note": PROPS[p].get("note", NOTES)} for p in ids if p in PROPS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in PROPS],
     "notes": "See DESIGN.md. Violations are confirmed by re-running the rejected calls before they are reported."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
