#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, "props")]
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, "props", p.lower() + ".py")):
        m = importlib.import_module(p.lower())
        checks.append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
                       "technique": m.TECH, "level": m.LEVEL, "level_note": m.NOTE, "evidence_file": "evidence/%s.json" % p})
    else:
        na.append({"property": p, "reason": "no check has been built yet"})
d = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: the harnesses interpose on the C11 thread and socket calls at link time. See DESIGN.md."}
json.dump(d, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
