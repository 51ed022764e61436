#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, props.py and the notes below"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/lib")
from props import PROPS, NOTES, NOT_YET
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "TLA+ specification model-checked with TLC; scenarios generated from it and at random are "
                                    "executed in the real code and the recorded traces are checked against it with TLC",
                       "level": "model_checking", "level_note": NOTES.get(i, "")})
    else:
        na.append({"property": i, "reason": NOT_YET.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its driver from /repo's working tree (include/ and src/) with AddressSanitizer; no hooks in /repo."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
