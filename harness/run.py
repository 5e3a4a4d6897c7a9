#!/usr/bin/env python3
import argparse
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import engine  # noqa: E402
import registry  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("-n", type=int)
    ap.add_argument("--only", help="comma-separated implementations (development only)")
    a = ap.parse_args()
    cls = registry.PROPS[a.prop]
    if a.only:
        cls.names = a.only.split(",")
    sys.exit(engine.run(cls, a.tier, a.seed, only_replay=a.replay, n=a.n))
