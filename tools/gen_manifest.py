#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "not_applicable.json")))
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the area crates compile the files of /repo in place", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. Checks need no build of /repo beforehand; build products live in /verif/.build."}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                            "thorough_cmd": "python3 bin/check.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": c.get("technique", "contracts on the real functions discharged by Kani/CBMC"),
                            "level": c["level"], "level_note": c.get("level_note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "machinery not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
