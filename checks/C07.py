#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = "SPECIFICATION Spec\nCONSTANTS\nLo <- L%s\nHi <- H%s\nFirst=%s\nSteps=%d\nCHECK_DEADLOCK FALSE\nINVARIANT OrdOK\nINVARIANT PointOK\nINVARIANT BoxOK\n"


def run(c):
    exe = c.build("iter.cpp", opt="-O0")
    for box in ("1", "2", "3") + (("4",) if c.thorough else ()):
        for first in ("TRUE", "FALSE"):
            c.model("GridModelMC", CFG % (box, box, first, 60), workers=2)
    n = 40 if c.thorough else 4
    c.decide_all([dict(module="IterTrace", exe=exe, args=[c.seed * 100 + k, n], tag="iter%d" % k) for k in range(4)])


vk.main("C07", run)
