#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, subprocess
D = os.path.dirname(os.path.abspath(__file__))
notes = json.load(open(os.path.join(D, "notes.json")))
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(D, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": notes[i]["technique"], "level": "model_checking", "level_note": notes[i]["note"]})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif", "enable": "go test -c -tags verif (harness/, with a replace directive to /repo)", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, conformance harness in harness/, known and fixed findings in known-findings.txt, design in DESIGN.md"}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
