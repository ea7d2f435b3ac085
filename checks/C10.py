#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

INV = "".join("INVARIANT %s\n" % i for i in ("Factors", "ParityOK", "Complete", "DetOK", "NullOK"))


def run(c):
    exe = c.build("solve.cpp", opt="-O0")
    cases = [(2, 3, 3, "plu"), (2, 3, 3, "lup"), (3, 2, 3, "lup"), (3, 3, 2, "plu")]
    if c.thorough:
        cases += [(3, 3, 3, "plu"), (3, 3, 3, "lup"), (5, 2, 2, "plu"), (5, 2, 3, "lup"), (2, 4, 4, "plu"), (2, 3, 5, "lup")]
    for p, r, k, kind in cases:
        c.model("Elim", "SPECIFICATION Spec\nCONSTANTS P=%d R=%d C=%d Kind=\"%s\"\n%sCHECK_DEADLOCK FALSE\n" % (p, r, k, kind, INV))
    n, reps = (32, 3000) if c.thorough else (4, 500)
    c.decide_all([dict(module="SolveTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="solve%d" % i) for i in range(n)])


vk.main("C10", run)
