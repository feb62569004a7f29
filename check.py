#!/usr/bin/env python3
"""Decide one property of /repo by static analysis: check.py ID"""

import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.framework import run            # noqa: E402
from sa.rules import RULES              # noqa: E402


def main(argv):
    if len(argv) < 2:
        print("usage: check.py ID [ID...]", file=sys.stderr)
        return 2
    rc = 0
    for pid in argv[1:]:
        if pid not in RULES:
            print(f"no check for property {pid}", file=sys.stderr)
            return 2
        mod, fn = RULES[pid].split(":")
        func = getattr(importlib.import_module(f"sa.rules.{mod}"), fn)
        r = run(pid, func, os.environ.get("VERIF_TIER", "quick"))
        rc = max(rc, r) if rc != 1 else 1
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv))
