#!/usr/bin/env python3
"""Deterministic-simulation checks for NiaPy.

  check.py run C01 [--tier quick|thorough] [--n N] [--workers W]
  check.py replay FILE
  check.py list
"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import env  # noqa: E402,F401


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["run", "replay", "list", "show"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--n", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--index", type=int)
    a = ap.parse_args()
    from sim import harness
    from sim.props import PROPS
    if a.cmd == "list":
        for p in PROPS.values():
            print(p.ID, p.__doc__)
        return 0
    if a.cmd == "replay":
        with open(a.what) as f:
            pid = json.load(f)["property"]
        return harness.replay(PROPS[pid], a.what)
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    if a.cmd == "show":
        import multiprocessing
        multiprocessing.current_process().name = "MainProcess"
        scn = harness.scenario(PROPS[a.what], seed, a.index, a.tier)
        print(json.dumps(scn, indent=1))
        res, err = harness.execute(PROPS[a.what], scn)
        print(err if res is None else (res.viol, res.ticks, res.evals, dict(res.faults)))
        return 0
    return harness.run_check(PROPS[a.what], a.tier, seed, n=a.n, workers=a.workers, wall=a.wall)


if __name__ == "__main__":
    sys.exit(main())
