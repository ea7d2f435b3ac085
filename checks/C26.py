#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("scalar.cpp", opt="-O0")
    c.model("ScalarModel", "SPECIFICATION Spec\nCONSTANTS N=%d\nINVARIANT Divides\nINVARIANT Powers\nINVARIANT Images\nINVARIANT Blends\nINVARIANT Polys\nCHECK_DEADLOCK FALSE\n" % (150 if c.thorough else 40))
    n, reps = (32, 60000) if c.thorough else (4, 15000)
    c.decide_all([dict(module="ScalarTrace", exe=exe, args=[c.seed * 1000 + i, reps], tag="scalar%d" % i) for i in range(n)])


vk.main("C26", run)
