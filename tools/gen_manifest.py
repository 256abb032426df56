#!/usr/bin/env python3
"""Writes MANIFEST.json and rules.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "checks_table.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, rules, na = [], {}, []
for p in props:
    if p not in CHECKS:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    d = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": "VERIF_TIER=quick python3 run.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": d["technique"], "level": d.get("level", "exploration"),
        "level_note": d["note"],
    })
    rules[p] = {"level": d.get("level", "exploration"), "rule": d["rule"], "assumptions": d.get("assumptions", [])}
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring of the real code; see DESIGN.md. No hooks are committed in /repo: the few in-package accessors come in through a build overlay (overlay/), and the race detector instruments every build."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
json.dump(rules, open(os.path.join(V, "rules.json"), "w"), indent=1); open(os.path.join(V, "rules.json"), "a").write("\n")
