#!/usr/bin/env python3
"""Builds the variants the checks use, from /repo's working tree."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, plans  # noqa: E402


class J:
    def __init__(self, variant, *a, **k):
        self.variant = variant


vs = sorted({j.variant for p in plans.PLANS.values() for j in p["jobs"]("quick", J)})
for v in vs:
    t = time.time()
    build.build(v)
    print("built %s in %.0f s" % (v, time.time() - t), flush=True)
