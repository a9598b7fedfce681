#!/usr/bin/env python3
"""check.py Cnn [--tier quick|thorough] [--seed N] [--replay FILE] [--only IDX]: decides one property; see DESIGN.md."""
import argparse, importlib, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True

import harness  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int)
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    mod = importlib.import_module(a.property.lower())
    only = a.only
    tier, seed = a.tier, a.seed
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        tier, seed, only = r["tier"], r["seed"], r["idx"]
    return harness.run_check(mod, tier, seed, only, a.jobs)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
