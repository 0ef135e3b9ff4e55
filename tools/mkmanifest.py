#!/usr/bin/env python3
"""Writes MANIFEST.json. NOTES: per property, what the check gives and trusts."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from manifest_notes import NOTES, NA
checks = []
for pid, (tech, note) in NOTES.items():
    checks.append(dict(property=pid, quick_cmd="./check " + pid, thorough_cmd="VERIF_TIER=thorough ./check " + pid,
                       evidence_file="evidence/%s.json" % pid, technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="TLA+ specification in spec/, checked with TLC; the real code is driven by harness crates and everything it does is judged by TLC against the specification. No hooks in /repo are needed: all that is observed is public API. The genuine defects found are repaired by fix: commits (known_findings.txt).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert sorted(list(NOTES) + list(NA)) == sorted(ids), set(ids) ^ set(list(NOTES) + list(NA))
print(len(checks), "checks")
