#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("dual.cpp", opt="-O0")
    c.model("DualModel", "SPECIFICATION Spec\nCONSTANTS P=%d Steps=%d\nINVARIANT IsDerivative\nINVARIANT Corners\nINVARIANT Nested\nCHECK_DEADLOCK FALSE\n" % ((7, 3) if c.thorough else (5, 3)))
    n, reps = (32, 80000) if c.thorough else (4, 20000)
    c.decide_all([dict(module="DualTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="dual%d" % i) for i in range(n)])


vk.main("C22", run)
