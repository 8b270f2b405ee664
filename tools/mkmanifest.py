#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from propdata.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from propdata import P
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as w:
    for p in sorted(P, key=lambda p: p["prop"]["id"]):
        assert p["prop"]["id"] in PROPS, p["prop"]["id"]
        w.write(json.dumps(p["prop"]) + "\n")
checks = []
for p in sorted(P, key=lambda p: p["prop"]["id"]):
    i = p["prop"]["id"]
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                       evidence_file="evidence/%s.json" % i, level="model_checking",
                       technique="TLA+ specification, exhaustive TLC model checking within bounds, and TLC trace validation of calls recorded from the real code",
                       level_note=p["note"] + " Assumes TLC, the Java arithmetic override (checked against its pure TLA+ definition) and the recording driver; covers the inputs the driver generates, not all inputs."))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
               notes="TLA+ with TLC; no hooks in /repo (public API only). Findings: known_findings.json. Design: DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
