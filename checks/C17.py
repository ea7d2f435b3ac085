#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = """SPECIFICATION Spec
CONSTANTS N=%d Reach=%d CS=%d MaxItems=2
INVARIANTS Finds NoneMissed Near
CHECK_DEADLOCK FALSE
"""


def run(c):
    exe = c.build("bins.cpp", opt="-O0")
    c.model("BinModel", CFG % (1, 4, 3) + "PROPERTY Ends\n")
    c.model("BinModel", CFG % ((2, 3, 3) if c.thorough else (2, 2, 2)), timeout=850)
    n, reps = (24, 4000) if c.thorough else (4, 800)
    c.decide_all([dict(module="BinTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="bins%d" % i, per_episode=True)
                  for i in range(n)])


vk.main("C17", run)
