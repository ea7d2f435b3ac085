#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = """SPECIFICATION Spec
CONSTANTS Exts=%d Vals=%s D=%d
INVARIANTS Unity AtGrid Among Edges Faraway Poly
CHECK_DEADLOCK FALSE
"""


def run(c):
    exe = c.build("raster.cpp", opt="-O0")
    c.model("RasterModel", CFG % (1, "{0,1,3}" if c.thorough else "{0,3}", 3))
    c.model("RasterModel", CFG % (2, "{0,3}" if c.thorough else "{3}", 2), timeout=850)
    n, reps = (24, 7000) if c.thorough else (4, 1400)
    c.decide_all([dict(module="RasterTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="raster%d" % i, per_episode=True)
                  for i in range(n)])


vk.main("C18", run)
