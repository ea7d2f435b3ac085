#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = """SPECIFICATION Spec
CONSTANTS NH=%d Sizes={0,2} Values={%s} Kinds={"shared","own","local","wrap"}
INVARIANTS Sole Allocated NoLeak Counted CountedOnly Contents AllGone
CONSTRAINT Few
CHECK_DEADLOCK FALSE
"""


def run(c):
    exe = c.build("storage.cpp", opt="-O0")
    c.model("StoreModel", CFG % ((3, "1,2") if c.thorough else (3, "1")), timeout=850)
    n, reps = (24, 6500) if c.thorough else (4, 1950)
    c.decide_all([dict(module="StoreTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="storage%d" % i, per_episode=True)
                  for i in range(n)])


vk.main("C04", run)
