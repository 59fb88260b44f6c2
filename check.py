#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property of /repo's current working tree (see DESIGN.md)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vc import contract  # noqa: E402

if __name__ == '__main__':
    sys.exit(contract.check('specs.' + sys.argv[1].lower()))
