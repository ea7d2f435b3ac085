#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("rot.cpp", opt="-O0")
    c.model("RotModel", "SPECIFICATION Spec\nCONSTANTS Steps=%d\nINVARIANT Agree\nINVARIANT Halves\nCHECK_DEADLOCK FALSE\n" % (4 if c.thorough else 3))
    n, reps = (32, 60000) if c.thorough else (4, 12000)
    c.decide_all([dict(module="RotTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="rot%d" % i) for i in range(n)])


vk.main("C20", run)
