#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("vec.cpp", opt="-O0")
    laws = "".join("INVARIANT %s\n" % x for x in ("Ring", "Mirror", "Order", "Mixes", "Turns", "Rays", "Rounding", "Hues"))
    for r, n, s in ([(4, 2, 3), (2, 3, 2), (1, 4, 2)] if c.thorough else [(2, 2, 2), (1, 3, 2)]):
        c.model("VecModel", "SPECIFICATION Spec\nCONSTANTS R=%d N=%d Steps=%d\n%sCHECK_DEADLOCK FALSE\n" % (r, n, s, laws))
    n, reps = (32, 60000) if c.thorough else (4, 15000)
    c.decide_all([dict(module="VecTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="vec%d" % i) for i in range(n)])


vk.main("C25", run)
