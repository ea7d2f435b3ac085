"""Checks C01-C03: Deque and SmallStorage against SeqContainer."""
import vk

BASE = "SPECIFICATION Spec\nCONSTANTS N=%d MaxCap=%d Vals=%s Slots={1,2} Hole=Hole\nCONSTRAINT Bounded\nVIEW View\nCHECK_DEADLOCK FALSE\n"
SPECS = {"deque": ("RingDeque", "RingOK"), "small": ("SmallArray", "CellsOK")}


def refine(c, kind, n, cap):
    mod, inv = SPECS[kind]
    c.model(mod, BASE % (n, cap, "{1,2}") + "INVARIANT %s\nPROPERTY Refines\n" % inv, min_states=50)


def script(c, kind, n, cap, maxlen=150):
    """All transitions of the implementation-shaped specification as driver commands."""
    mod, _ = SPECS[kind]
    es = c.edges(mod, BASE % (n, cap, "{1}") + "ACTION_CONSTRAINT Emit\n")
    ws, cov, total = vk.walks(es, c.rng, maxlen)
    if cov != total:
        raise vk.CheckError("walks cover %d of %d transitions" % (cov, total))
    out = []
    for i, w in enumerate(ws):
        for j, a in enumerate(w):
            k = a["k"]
            if a["op"] in ("PushBack", "PushFront"):
                k = (i + j) & 1          # copied in or moved in
            out.append("%s %d %d %d" % (a["op"], a["s"] - 1, a["t"] - 1, k))
        out.append("--")
    return "\n".join(out) + "\n", len(ws), total


def run(c, kinds, aspect):
    exes = c.build_all([dict(src="containers.cpp", name="%s%d" % (k, n), flags=["-DCAP=%d" % n] + ["-DDEQUE"] * (k == "deque"))
                        for k in kinds for n in (0, 1, 2, 3, 5, 8)])
    replayed = {}
    jobs = []
    def judge(kind, n, tag, eps, ln, sc):
        jobs.append(dict(module="SeqTrace", exe=exes["%s%d" % (kind, n)], args=[c.seed, eps, ln], stdin=sc, tag="%s_%s%d" % (tag, kind, n),
                         consts='CONSTANTS\n Slots={1,2,3}\n N=%d\n Aspect="%s"\n' % (n, aspect), per_episode=True))
    for kind in kinds:
        for n, cap in ([(2, 4), (1, 3)] if not c.thorough else [(2, 5), (1, 4), (0, 3)]):
            refine(c, kind, n, cap)
        for n, cap in ([(0, 2), (1, 3), (2, 4 if kind == "small" or aspect == "sequence" else 3)] if not c.thorough
                       else [(0, 3), (1, 4), (2, 5), (3, 5)]):
            sc, nw, ne = script(c, kind, n, cap)
            replayed["%s N=%d cap<=%d" % (kind, n, cap)] = {"walks": nw, "transitions_covered": ne}
            judge(kind, n, "walk", 0, 0, sc)
        for n in (0, 1, 2, 3, 5, 8):
            eps, ln = (20, 150) if not c.thorough else (400, 400)
            judge(kind, n, "rand", eps, ln, "")
    jobs.sort(key=lambda j: -len(j["stdin"]))
    c.decide_all(jobs)
    return {"extra": {"walks": replayed},
            "assumptions": ["elements do not throw from their constructors or assignments",
                            "no call passes a reference to an element of the container it mutates",
                            "front, back and operator[] are not called on an empty container"]}
