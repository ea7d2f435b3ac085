#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = "SPECIFICATION Spec\nCONSTANTS Slots={%s} K=%d\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def run(c):
    exes = c.build_all([dict(src="perm.cpp", name="perm%d" % n, flags=["-DSIZE=%d" % n]) for n in (2, 3, 4, 6)] +
                       [dict(src="perm.cpp", name="permdyn", flags=["-DDYN"])])
    c.model("PermModel", CFG % ("1,2", 3) + "INVARIANT PermOK\nINVARIANT SignOK\nINVARIANT Laws\n")
    c.model("PermModel", CFG % ("1", 4) + "INVARIANT PermOK\nINVARIANT SignOK\nINVARIANT Laws\n")
    if c.thorough:
        c.model("PermModel", CFG % ("1,2", 4) + "INVARIANT PermOK\nINVARIANT SignOK\nINVARIANT Laws\n")
    jobs = []
    walked = {}
    for slots, k in [("1,2", 2), ("1,2", 3), ("1", 4)]:
        es = c.edges("PermModel", CFG % (slots, k) + "ACTION_CONSTRAINT Emit\n")
        ws, cov, tot = vk.walks(es, c.rng, 200)
        walked["n=%d slots=%s" % (k, slots)] = {"walks": len(ws), "transitions_covered": cov}
        sc = "".join("".join("%s %d %d %d %d %d %s\n" % (a["op"], a["s"] - 1, a["t"] - 1, a["u"] - 1, a["a"], a["b"], " ".join(map(str, a["q"])))
                             for a in w) + "--\n" for w in ws)
        names = ["perm%d" % k] + (["permdyn"] if k == 3 else [])
        for nm in names:
            jobs.append(dict(module="PermTrace", exe=exes[nm], args=[c.seed, 0, 0], stdin=sc, tag="walk_" + nm))
    for nm in exes:
        jobs.append(dict(module="PermTrace", exe=exes[nm], args=[c.seed, 300 if c.thorough else 30, 100], stdin="", tag="rand_" + nm))
    for j in jobs:
        j.update(consts="CONSTANTS Slots={1,2}\n", per_episode=True)
    c.decide_all(jobs)
    return {"extra": {"walks": walked}}


vk.main("C08", run)
