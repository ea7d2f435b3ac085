#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = """SPECIFICATION Spec
CONSTANTS R=1 B=%s
INVARIANTS Ease Corners Seams Through Straight
CHECK_DEADLOCK FALSE
"""


def run(c):
    exe = c.build("smooth.cpp", opt="-O0")
    c.model("SmoothModel", CFG % ("{0,1,2,3}" if c.thorough else "{1,2}"), timeout=850)
    n, reps = (24, 1500) if c.thorough else (4, 120)
    c.decide_all([dict(module="SmoothTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="smooth%d" % i) for i in range(n)])


vk.main("C23", run)
