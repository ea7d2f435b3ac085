#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("rect.cpp", opt="-O0")
    for n, w in ((1, 4), (2, 2)) + (((1, 6), (2, 3), (3, 1)) if c.thorough else ()):
        c.model("RectModel", "SPECIFICATION Spec\nCONSTANTS N=%d W=%d\nINVARIANT Represents\nINVARIANT Agrees\nCHECK_DEADLOCK FALSE\n" % (n, w))
    n, reps = (32, 4000) if c.thorough else (4, 1500)
    c.decide_all([dict(module="RectTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="rect%d" % i) for i in range(n)])


vk.main("C12", run)
