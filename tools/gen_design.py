#!/usr/bin/env python3
"""Expands DESIGN.in.md into DESIGN.md: per-property sections (DESIGN string of harness/p_cxx.py) and the planted-bug table."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness")); sys.dont_write_bytecode = True
t = open(os.path.join(ROOT, "DESIGN.in.md")).read()
out = ["## Properties\n"]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line); pid = p["id"]
    out.append(f"### {pid} {p['title']}\n")
    if os.path.exists(os.path.join(ROOT, "harness", f"p_{pid.lower()}.py")):
        m = importlib.import_module(f"p_{pid.lower()}")
        out.append(f"{m.TECHNIQUE}.\n\n{m.NOTE}\n\nAssumptions: {'; '.join(m.ASSUMPTIONS) or 'none'}.\n")
        if getattr(m, "DESIGN", ""):
            out.append(m.DESIGN.strip() + "\n")
    else:
        out.append("Planned; not built yet.\n")
tab = ["## Planted bugs (seeded/ and seeded_more/)\n", "The bugs in seeded/ are those run by vcheck, whose two hours fit only a few repetitions of the test suite; "
       "those in seeded_more/ have the same form and were confirmed in the same way.\n", "| bug | property | caught by | needs |", "|---|---|---|---|"]
res = os.path.join(ROOT, "tools", "caught.json")
caught = json.load(open(res)) if os.path.exists(res) else {}
where = {b: d for d in ("seeded", "seeded_more") for b in os.listdir(os.path.join(ROOT, d))}
for b in sorted(where):
    m = json.load(open(os.path.join(ROOT, where[b], b, "meta.json")))
    tab.append(f"| {b} | {m['property']} | {', '.join(caught.get(b, [])) or 'not yet measured'} | {m['needs']} |")
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(tab) + "\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
