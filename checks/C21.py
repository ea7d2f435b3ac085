#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = "SPECIFICATION Spec\nCONSTANTS W=%d T=%d M=%d NS=%d Seeds={1,2} Steps=%d\nINVARIANT Even\nINVARIANT InRange\nINVARIANT Repeatable\nINVARIANT Once\nINVARIANT Weighed\nCHECK_DEADLOCK FALSE\n"


def run(c):
    exe = c.build("random.cpp", opt="-O0")
    c.model("RandModel", CFG % (4, 3, 2, 5, 9))
    if c.thorough:
        c.model("RandModel", CFG % (6, 5, 3, 6, 14))
    k = 10 if c.thorough else 1
    jobs = [dict(args=[c.seed * 1000 + i, 60 * k, 80, "draw"], tag="draw%d" % i) for i in range(4 * k)]
    jobs += [dict(args=[c.seed * 1000 + i, 2 * k, 900, "mt"], tag="mt%d" % i) for i in range(2)]
    jobs += [dict(args=[c.seed * 1000 + i, 12, 0, "sample"], tag="sample%d" % i) for i in range(2 * k)]
    for j in jobs:
        j.update(module="RandTrace", exe=exe, per_episode=True)
    c.decide_all(jobs)


vk.main("C21", run)
