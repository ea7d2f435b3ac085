#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("rays.cpp", opt="-O0")
    far, steps = (3, 5) if c.thorough else (3, 2)
    c.model("RayModel", "SPECIFICATION Spec\nCONSTANTS Far=%d Steps=%d\nINVARIANT Found\nCHECK_DEADLOCK FALSE\n" % (far, steps), timeout=1800)
    n, reps = (32, 150) if c.thorough else (8, 24)
    c.decide_all([dict(module="RayTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="rays%d" % i) for i in range(n)])


vk.main("C16", run)
