#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vp import *


def main():
    pid = sys.argv[1]
    try:
        import registry
        rc = registry.CHECKS[pid]()
    except Violation as v:
        c = Check(pid)
        c.violation(v.what, v.replay)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
