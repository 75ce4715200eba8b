#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness directory is claimed."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(R, "tools", "technique.json")))
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if os.path.isdir(os.path.join(R, "harness", i.lower())) and i in TECH:
        t, n = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="exploration",
                           level_note=n + " Decides the generated cases only; trusts the oracle, rapid and the Go toolchain."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="Property-based testing with pgregory.net/rapid against explicit oracles; exported API only, no hooks in /repo."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
