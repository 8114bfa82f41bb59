#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property on /repo's current tree. Exit 0: held on everything
explored. Exit 1 with a VIOLATION line: broken. VERIF_TIER and VERIF_SEED are
the defaults of --tier and --seed."""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild, vcheck, checks

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    if a.property == "setup":
        return checks.setup()
    if a.replay:
        return checks.replay(a.property, a.replay)
    return vcheck.main(a.property, checks.CHECKS[a.property], tier, seed)

if __name__ == "__main__":
    sys.exit(main())
