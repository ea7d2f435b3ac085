#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = "SPECIFICATION Spec\nCONSTANTS MaxN=%d MaxI=%d\nVIEW View\nCHECK_DEADLOCK FALSE\n"
INV = "INVARIANT Refines\nINVARIANT Listed\nINVARIANT Links\n"


def run(c):
    exe = c.build("tree.cpp", opt="-O0")
    for n, i in ((5, 2),) + (((5, 3), (6, 2)) if c.thorough else ()):
        c.model("TreeList", CFG % (n, i) + INV)
    jobs, walked = [], {}
    for n, i in ((4, 2), (3, 3)) + (((5, 2),) if c.thorough else ()):
        es = c.edges("TreeList", CFG % (n, i) + "ACTION_CONSTRAINT Emit\n")
        ws, cov, tot = vk.walks(es, c.rng, 150)
        walked["nodes=%d items=%d" % (n, i)] = {"walks": len(ws), "transitions_covered": cov}
        sc = "".join("".join("%s %d %d %s\n" % (a["op"], a["pos"], len(a["p"]), " ".join(map(str, a["p"]))) for a in w) + "--\n" for w in ws)
        jobs.append(dict(exe=exe, args=[c.seed, 0, 0, "edit"], stdin=sc, tag="walk%d%d" % (n, i)))
    for k in range(24 if c.thorough else 3):
        jobs.append(dict(exe=exe, args=[c.seed * 100 + k, 300 if c.thorough else 130, 100, "edit"], stdin="", tag="rand%d" % k))
    for j in jobs:
        j.update(module="TreeTrace", per_episode=True)
    c.decide_all(jobs)
    return {"extra": {"walks": walked}}


vk.main("C05", run)
