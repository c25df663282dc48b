#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: builds what the property needs from /repo's working tree, runs the exploration and
writes evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not be run."""
import json, os, shutil, subprocess, sys, tarfile, time, glob

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
EV = os.path.join(V, "evidence")

sys.path.insert(0, V)
from engines import ENGINES, Broken, TECH  # noqa: E402


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    start = time.time()
    os.makedirs(EV, exist_ok=True)
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    cov, viol = [], []
    for name, fn in ENGINES[prop]:
        try:
            c, v = fn(prop, tier)
        except Broken as e:
            print(f"check of {prop} could not be run ({name}): {e}")
            sys.exit(2)
        cov.append((name, c))
        for path in v:
            viol.append(path)
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        if viol:
            break
    total = {k: sum(c.get(k, 0) for _, c in cov) for k in ("states", "transitions", "traces_validated_against_impl")}
    samples = []
    for n, c in cov:
        samples += [f"[{n}] {s}" for s in c.get("samples", [])]
    total["samples"] = samples[:12] or ["none"]
    total["engines"] = {n: {k: v for k, v in c.items() if k != "samples"} for n, c in cov}
    total["how_traces_were_validated"] = TECH[prop]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": total,
        "wall_s": round(time.time() - start, 2),
        "violations": len(viol),
    }
    with open(os.path.join(EV, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: states={total['states']} transitions={total['transitions']} "
          f"runs of the implementation={total['traces_validated_against_impl']} wall={ev['wall_s']}s "
          f"{'VIOLATED' if viol else 'ok'}")
    sys.exit(1 if viol else 0)


main()
