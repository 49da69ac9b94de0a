#!/usr/bin/env python3
"""MANIFEST.json from harness/config.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import config
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in config.PROPS: continue
    c = config.PROPS[p]
    checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
        "evidence_file": "evidence/%s.json" % p, "technique": c.get("technique", config.TECH), "level": "model_checking",
        "level_note": c.get("note", config.NOTE)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "", "enable": "no hook is needed: the checks drive the public API of /repo's working tree", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": config.NA.get(p, "check not built yet")} for p in ids if p not in config.PROPS],
     "notes": "TLA+ specifications in spec/, checked with TLC; traces of the real code are recorded by harness/drv_*.py and validated event by event against spec/T_*.tla. See DESIGN.md."}
if not m["hooks"]["source_commits"]: del m["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
