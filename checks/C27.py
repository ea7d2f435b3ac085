#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = """SPECIFICATION Spec
CONSTANTS L=%d
INVARIANTS Ends Bonnet Orthogonal Integral Circle Addition Spots Lamberts
CHECK_DEADLOCK FALSE
"""


def run(c):
    exe = c.build("harmonics.cpp", opt="-O0")
    c.model("HarmonicsModel", CFG % (6 if c.thorough else 4), timeout=850)
    n, reps = (24, 4000) if c.thorough else (4, 300)
    c.decide_all([dict(module="HarmonicsTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="harmonics%d" % i) for i in range(n)])


vk.main("C27", run)
