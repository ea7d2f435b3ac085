#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk

CFG = "SPECIFICATION Spec\nCONSTANTS NCells=%d Val={0,1}\nINVARIANT AsIfReadBefore\nINVARIANT OthersUntouched\nCHECK_DEADLOCK FALSE\n"


def run(c):
    sh = [("prod222", ["-DPROD", "-DRR=2", "-DMM=2", "-DCC=2"]), ("prod232", ["-DPROD", "-DRR=2", "-DMM=3", "-DCC=2", "-DELEM=int"]),
          ("prod323", ["-DPROD", "-DRR=3", "-DMM=2", "-DCC=3"]), ("prod433", ["-DPROD", "-DRR=4", "-DMM=3", "-DCC=3"]),
          ("sum23", ["-DRR=2", "-DCC=3"]), ("sum32", ["-DRR=3", "-DCC=2", "-DELEM=int"]), ("sum33", ["-DRR=3", "-DCC=3"]), ("memory", ["-DMEM"])]
    if c.thorough:
        sh += [("prod333i", ["-DPROD", "-DRR=3", "-DMM=3", "-DCC=3", "-DELEM=int"]), ("prod245", ["-DPROD", "-DRR=2", "-DMM=4", "-DCC=5"]),
               ("sum44", ["-DRR=4", "-DCC=4"]), ("sum52", ["-DRR=5", "-DCC=2"])]
    exes = c.build_all([dict(src="algebra.cpp", name=n, flags=f, opt="-O0") for n, f in sh])
    c.model("MtxAlias", CFG % (5 if c.thorough else 4))
    c.decide_all([dict(module="AlgebraTrace", exe=exes[n], tag=n,
                       args=[c.seed + i, (60000 if c.thorough else 8000) if n == "memory" else (120 if c.thorough else 12)])
                  for i, (n, _) in enumerate(sh)])


vk.main("C09", run)
