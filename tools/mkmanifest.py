#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import CHECKS, NOTES, NOT_APPLICABLE
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
checks = []
for pid in props:
    c = CHECKS.get(pid)
    if c:
        checks.append(dict(property=pid, quick_cmd="python3 tools/check.py %s --tier quick" % pid, thorough_cmd="python3 tools/check.py %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid, technique=c["technique"], level=c["level"], level_note=NOTES[pid]))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks,
    not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, "no check has been built yet")) for p in props if p not in CHECKS],
    notes="No hooks in /repo: schedule points are put in by a build overlay that tools/instr generates from the current working tree; see DESIGN.md.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
