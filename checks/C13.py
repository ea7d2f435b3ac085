#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("shape.cpp", opt="-O0")
    for depth, q, reach, dr in ([(1, 1, 3, 1), (1, 2, 4, 1), (2, 1, 3, 1), (1, 1, 3, 2)] if c.thorough else [(1, 1, 3, 1)]):
        c.model("ShapeModel", "SPECIFICATION Spec\nCONSTANTS Depth=%d Q=%d Reach=%d DirReach=%d\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n" % (depth, q, reach, dr))
    n, reps = (32, 60) if c.thorough else (8, 10)
    c.decide_all([dict(module="ShapeTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="shape%d" % i) for i in range(n)])


vk.main("C13", run)
