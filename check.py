#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property statically."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    import registry
    from runner import run_check
    fn = registry.CHECKS.get(a.property)
    if fn is None:
        print(f"no check for {a.property}")
        return 2
    return run_check(a.property, a.tier, fn)


if __name__ == "__main__":
    sys.exit(main())
