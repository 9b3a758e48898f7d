#!/usr/bin/env python3
"""tools/sens.py PROP [FUNC...]: one-statement edits the rules of PROP do not react to (development aid)"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import check
from vlib import thorough
if __name__ == "__main__":
    mod, ctx = check.decide(sys.argv[1], "quick")
    res, per, det = thorough.sensitivity(sys.argv[1], ctx, budget=600, only=sys.argv[2:] or None, verbose=True)
    print(res)
    for k, j, why in sorted(det, key=lambda d: (d[0], d[1][1], d[1][3][1])):
        if k != "reacts":
            src = open("/repo/" + j[1]).read().splitlines()
            print(k, j[3][0], f"{j[1]}:{j[3][1]}", src[j[3][1] - 1].strip()[:100], why)
