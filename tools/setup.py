#!/usr/bin/env python3
"""Builds what the checks run, so that a build that cannot work is seen early."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
os.makedirs(check.TARGET, exist_ok=True)
for c in ("vcore", "zoo"):
    ok, log = check.cargo(os.path.join(HERE, c))
    print(c, "built" if ok else "does not build:\n" + log[-3000:])
    if not ok:
        sys.exit(1)
