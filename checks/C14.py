#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("pairs.cpp", opt="-O0")
    cases = [(2, 2, 3, 10, 1), (2, 1, 4, 10, 2), (3, 1, 3, 20, 1)]
    if c.thorough:
        cases += [(2, 2, 4, 10, 1), (2, 3, 3, 10, 2), (3, 1, 4, 20, 1), (3, 1, 4, 20, 2), (3, 1, 5, 20, 1)]
    for case in cases:
        c.model("GjkModel", "SPECIFICATION Spec\nCONSTANTS N=%d R=%d K=%d MaxIter=%d Runs=%d\nINVARIANT Right\nINVARIANT Separates\n"
                "INVARIANT Ends\nINVARIANT Inside\nCHECK_DEADLOCK FALSE\n" % case, timeout=3000)
    n, reps = (32, 800) if c.thorough else (8, 50)
    c.decide_all([dict(module="PairTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="pairs%d" % i) for i in range(n)])


vk.main("C14", run)
