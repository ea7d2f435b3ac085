#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("hash.cpp", opt="-O0")
    c.model("HashModel", "SPECIFICATION Spec\nINVARIANTS Known KnownWide Turns Apart\nCHECK_DEADLOCK FALSE\n")
    n, reps = (24, 3000) if c.thorough else (4, 500)
    c.decide_all([dict(module="HashTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="hash%d" % i) for i in range(n)])


vk.main("C24", run)
