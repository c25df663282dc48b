#!/usr/bin/env python3
"""Builds the engines once (the checks build whatever is missing, too)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engines
os.makedirs(engines.EV, exist_ok=True)
engines.vendor_tokio()
for mode in ("sync", "async"):
    rc, out = engines.cargo("conc", ["--bin", mode, "--features", f"f_{mode}"], "conc", "--cfg fieldx_mc -Awarnings")
    if rc:
        print(engines.errors(out))
        sys.exit(1)
rc, out = engines.seq_build([b for g in engines.SEQ_BINS.values() for b in g])
if rc:
    print(engines.errors(out))
    sys.exit(1)
# leaves the compiled dependencies of `check`, `build` and of the argument lists behind
for prop, engine in (("C21", 0), ("C22", 0), ("C27", 0), ("C30", 0)):
    try:
        engines.ENGINES[prop][engine][1](prop, "quick")
    except engines.Broken as e:
        print(e)
        sys.exit(1)
