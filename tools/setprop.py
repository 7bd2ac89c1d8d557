#!/usr/bin/env python3
"""setprop.py ID KEY VALUE: changes a field of a property in properties.jsonl."""
import json, sys
from pathlib import Path
p = Path(__file__).resolve().parent.parent / "properties.jsonl"
out = []
for l in p.read_text().splitlines():
    d = json.loads(l)
    if d["id"] == sys.argv[1]:
        k = sys.argv[2]
        if "." in k:
            a, b = k.split(".")
            d[a][b] = sys.argv[3]
        else:
            d[k] = sys.argv[3]
    out.append(json.dumps(d, ensure_ascii=False))
p.write_text("\n".join(out) + "\n")
