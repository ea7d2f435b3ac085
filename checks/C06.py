#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk


def run(c):
    exe = c.build("tree.cpp", opt="-O0")
    for n in (5, 6) if c.thorough else (5,):
        c.model("TreeQuery", "SPECIFICATION Spec\nCONSTANTS MaxN=%d\nINVARIANT Visited\nINVARIANT Inside\nCHECK_DEADLOCK FALSE\n" % n)
    c.decide_all([dict(module="TreeTrace", exe=exe, args=[c.seed * 100 + k, 300 if c.thorough else 130, 100, "query"], stdin="",
                       tag="query%d" % k, per_episode=True) for k in range(24 if c.thorough else 4)])


vk.main("C06", run)
