#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (checks/cNN.py) and properties.jsonl."""
import json
from pathlib import Path
R = Path(__file__).resolve().parent.parent
NOTE = json.loads((R / "tools/levels.json").read_text())
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (R / "checks" / f"{i.lower()}.py").exists() and i in NOTE:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": NOTE[i][0], "level": "model_checking",
                       "level_note": NOTE[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; the behaviours TLC enumerates or simulates are replayed into "
              "the code built from /repo and the generated programs are executed on lib/sparklite. Known findings: known-findings.json."}
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")
