#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("affine.cpp", opt="-O0")
    c.model("AffineModel", "SPECIFICATION Spec\nCONSTANTS Steps=%d\nINVARIANT Carries\nINVARIANT Undoes\nINVARIANT Directions\nINVARIANT Normals\nINVARIANT Rotations\nINVARIANT Pure\nCHECK_DEADLOCK FALSE\n" % 2)
    n, eps = (32, 300) if c.thorough else (4, 150)
    c.decide_all([dict(module="AffineTrace", exe=exe, args=[c.seed * 1000 + i, eps, 60], tag="affine%d" % i, per_episode=True) for i in range(n)])


vk.main("C11", run)
