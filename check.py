#!/usr/bin/env python3
"""check.py <property>: runs the monitors of one property on /repo's working tree.

Environment: VERIF_SEED (all randomness), VERIF_TIER (quick | thorough).
Exit 0: held; 1: violated (a VIOLATION line was printed); 2: the check itself failed.
"""
import sys

from vlib import runner

if __name__ == "__main__":
    if len(sys.argv) != 2:
        print("usage: check.py <property>")
        sys.exit(2)
    sys.exit(runner.main(sys.argv[1]))
