#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of engines"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from engines import ENGINES, TECH
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ENGINES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "--cfg fieldx_mc", "enable": "RUSTFLAGS=\"--cfg fieldx_mc\" and [patch.crates-io] of parking_lot and tokio, see conc/Cargo.toml",
              "source_commits": ["3130b53"]},
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
