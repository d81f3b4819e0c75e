#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--replay file]"""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--replay")
    o = a.parse_args()
    check = importlib.import_module("checks." + o.property.lower()).CHECK
    try:
        if o.replay:
            return check.replay(o.replay)
        return check.main(o.tier if o.tier in ("quick", "thorough") else "quick", o.seed)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
