#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("facet.cpp", opt="-O0")
    cases = [(2, 3, 1, 1, 3, "TRUE"), (2, 2, 2, 2, 3, "TRUE"), (3, 4, 0, 1, 1, "FALSE"), (3, 3, 0, 1, 2, "TRUE")]
    if c.thorough:
        cases += [(2, 3, 2, 2, 3, "TRUE"), (3, 4, 0, 1, 1, "TRUE"), (3, 4, 0, 1, 2, "FALSE"), (3, 3, 1, 1, 2, "FALSE")]
    for case in cases:
        c.model("SimplexModel", "SPECIFICATION Spec\nCONSTANTS N=%d K=%d L=%d R=%d X=%d Free=%s\nINVARIANT Found\nCHECK_DEADLOCK FALSE\n" % case, timeout=3000)
    for n, r, steps, det in ([(2, 1, 2, 2), (3, 1, 1, 1)] if c.thorough else [(2, 1, 2, 1)]):
        c.model("PlaneModel", "SPECIFICATION Spec\nCONSTANTS N=%d R=%d Steps=%d MaxDet=%d\nINVARIANT KeepsSides\nINVARIANT Undoes\nCHECK_DEADLOCK FALSE\n" % (n, r, steps, det), timeout=3000)
    n, reps = (32, 600) if c.thorough else (8, 30)
    c.decide_all([dict(module="FacetTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="facet%d" % i) for i in range(n)])


vk.main("C15", run)
