#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props.meta import META  # noqa
from tools.properties import PROPS, NOT_APPLICABLE  # noqa

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + [x["prop"] for x in NOT_APPLICABLE]:
        q = {k: v for k, v in p.items() if k not in ("level_note",)}
        f.write(json.dumps(q) + "\n")

checks = []
for p in PROPS:
    m = META[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and inputs)",
        "level": m["level"],
        "level_note": p["level_note"],
    })
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import numpy, pandas, cv2, joblib'",
    "hooks": {"guard": "none", "enable": "no hooks: the simulator replaces standard library seams at run time",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": x["prop"]["id"], "reason": x["reason"]} for x in NOT_APPLICABLE],
    "notes": "Machinery and its limits are described in DESIGN.md; defects found and repaired in known_findings.json.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
