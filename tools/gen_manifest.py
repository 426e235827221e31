#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in harness/."""

import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", f"p_{pid.lower()}.py")):
        m = importlib.import_module(f"p_{pid.lower()}")
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid} quick",
            "thorough_cmd": f"python3 check.py {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": m.TECHNIQUE,
            "level": "model_checking",
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "TLA+ specifications in spec/, checked with TLC; drivers in harness/ replay TLC behaviours in "
                "/repo/src and record traces that TLC validates against the *Trace.tla specifications. "
                "No hooks in /repo. Known and fixed defects: KNOWN_FINDINGS.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
