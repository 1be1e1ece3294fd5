#!/usr/bin/env python3
"""Decide one property from /repo's current source: python3 check.py <ID> [--tier quick|thorough]."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    from vsa import rule
    rc = 0
    for pid in [a for a in args if len(a) == 3 and a[0].isupper()]:
        rc = max(rc, rule.run(pid, tier, importlib.import_module("rules." + pid.lower())))
    return rc


if __name__ == "__main__":
    sys.exit(main())
