#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of suites."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import suites
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
MODULE = {"Trace": "trace validation"}
NOTE = {}
def note(p):
    return suites.LEVEL_NOTES.get(p["id"], suites.LEVEL_NOTES["*"])
checks, na = [], []
for p in props:
    if p["id"] in suites.PROPS:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "technique": suites.TECHNIQUE.get(p["id"], suites.TECHNIQUE["*"]),
                       "level": "model_checking", "level_note": note(p)})
    else:
        na.append({"property": p["id"], "reason": suites.NOT_APPLICABLE[p["id"]]})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ checked with TLC; no hooks are needed, everything is observed through the public API."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
