"""Shared machinery of the checks in /verif/checks.

A check builds a driver against /repo's working tree, lets TLC explore the
specification (and emit the behaviours to replay), runs the driver, and has TLC
decide whether every recorded step is one the specification allows.
Outcome: exit 0 = held, exit 1 + VIOLATION line = broken, exit 2 = check error.
"""
import collections, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed (build, tool); not a verdict."""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.opcounts = collections.Counter()
        self.samples = []
        self.notes = []
        self.models = []
        self.violations = []
        self.known_hit = collections.Counter()
        self.known = self._load_known()
        self.lock = threading.RLock()
        self._lib = None

    # ---------------------------------------------------------------- known
    def _load_known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                k = json.loads(line)
                if k.get("property") == self.pid:
                    out.append(k)
        return out

    @staticmethod
    def _matches(k, ev):
        m = k.get("match")
        return bool(m) and all(ev.get(f) == v for f, v in m.items())

    # ---------------------------------------------------------------- build
    CXX = ["clang++", "-std=c++20", "-g", "-w", "-include", "optional", "-include", "iostream", "-D_GLIBCXX_ASSERTIONS"]
    ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
    LIBSRC = ["geomc/GeomException.cpp", "geomc/function/functiondetail/SipHash.cpp", "geomc/random/LCRand.cpp",
              "geomc/random/MTRand.cpp", "geomc/random/Random.cpp", "geomc/random/RandomTools.cpp"]

    def _compile(self, cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-6000:])
            raise CheckError("does not compile: " + " ".join(cmd))

    def lib(self):
        """the library's own object files (whatever of them exists)"""
        with self.lock:
            if self._lib is None:
                srcs = [x for x in self.LIBSRC if os.path.exists(os.path.join(REPO, x))]
                objs = [os.path.join(self.out, os.path.basename(x) + ".o") for x in srcs]
                with ThreadPoolExecutor(len(srcs) or 1) as ex:
                    list(ex.map(lambda so: self._compile(self.CXX + self.ASAN + ["-O1", "-I" + REPO, "-c", os.path.join(REPO, so[0]), "-o", so[1]]),
                                zip(srcs, objs)))
                self._lib = objs
            return self._lib

    def build(self, src, name=None, flags=(), opt="-O1", asan=True, libs=()):
        name = name or os.path.splitext(os.path.basename(src))[0]
        exe = os.path.join(self.out, name)
        objs = self.lib()
        self._compile(self.CXX + [opt, "-I" + REPO, "-I" + DRV] + (self.ASAN if asan else []) + list(flags) +
                      [os.path.join(DRV, src)] + objs + ["-o", exe] + list(libs))
        return exe

    def build_all(self, specs, par=NCPU):
        with ThreadPoolExecutor(par) as ex:
            return {k["name"]: e for k, e in zip(specs, ex.map(lambda k: self.build(**k), specs))}

    # ---------------------------------------------------------------- run
    def run(self, exe, args=(), stdin=None, timeout=240, tag="trace"):
        """Run a driver; returns the path of the ndjson trace it wrote."""
        path = os.path.join(self.out, tag + ".ndjson")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:"
                   "handle_sigbus=0:handle_sigfpe=0:allocator_may_return_null=1:detect_odr_violation=0",
                   TRACE_OUT=path, LC_ALL="C")
        t = time.time()
        try:
            r = subprocess.run([exe] + [str(a) for a in args], input=stdin, capture_output=True, text=True,
                               timeout=timeout, env=env)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, err = "timeout", (e.stderr or b"").decode("utf8", "replace") if isinstance(e.stderr, bytes) else (e.stderr or "")
        open(os.path.join(self.out, tag + ".stderr"), "w").write(err or "")
        if not os.path.exists(path):
            raise CheckError("driver wrote no trace: rc=%s %s" % (rc, (err or "")[-2000:]))
        ended = False
        with open(path, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 8192))
            tail = f.read().decode("utf8", "replace").rstrip("\n").split("\n")
        last = tail[-1] if tail else ""
        ended = '"op":"END"' in last or '"op":"CRASH"' in last
        if not ended:
            # died without a word (killed, timeout): close the trace with a crash event
            data = open(path, "rb").read()
            cut = data.rfind(b"\n") + 1
            with open(path, "wb") as f:
                f.write(data[:cut])
                f.write(json.dumps({"ep": 0, "op": "CRASH", "why": "driver ended: %s" % rc}).encode() + b"\n")
        self.notes.append("driver %s %s: rc=%s %.1fs" % (os.path.basename(exe), " ".join(map(str, args))[:60], rc, time.time() - t))
        return path

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, workers=1, env=None, timeout=800, extra=(), heap="3g"):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.out)
        cfgp = os.path.join(d, module + ".cfg")
        open(cfgp, "w").write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS + ":" + SPEC, "-DTLA-Library=" + SPEC,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE",
               "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
        except subprocess.TimeoutExpired:
            shutil.rmtree(d, ignore_errors=True)
            raise CheckError("TLC timed out on " + module)
        out = r.stdout
        shutil.rmtree(d, ignore_errors=True)
        gen = dis = None
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("generated ", "generated, ")):
            pass
        if m:
            gen, dis = int(m.group(1)), int(m.group(2))
        ok = "Model checking completed. No error has been found." in out
        return ok, gen, dis, out

    def model(self, module, cfg, workers=NCPU, timeout=600, heap="6g", env=None, min_states=2, cover=None):
        """Exhaustively check the specification itself with TLC (must pass)."""
        ok, gen, dis, out = self._tlc(module, cfg, workers, timeout=timeout, heap=heap, env=env)
        if not ok or dis is None:
            sys.stderr.write(out[-5000:])
            raise CheckError("the specification %s does not check" % module)
        if dis < min_states:
            raise CheckError("model %s is vacuous: %d states" % (module, dis))
        self.states += dis
        self.transitions += gen
        self.models.append("%s: %d distinct states, %d transitions" % (module, dis, gen))
        return dis, gen, out

    def edges(self, module, cfg, timeout=600, env=None, heap="6g"):
        """Explore exhaustively and return every transition (printed by an action constraint as
        JSON {p,a,q}); behaviours to replay are walks through this graph."""
        ok, gen, dis, out = self._tlc(module, cfg, 1, timeout=timeout, env=env, heap=heap)
        if not ok:
            sys.stderr.write(out[-5000:])
            raise CheckError("the specification %s does not check" % module)
        self.states += dis
        self.transitions += gen
        self.models.append("%s: %d distinct states, %d transitions" % (module, dis, gen))
        es = []
        for line in out.split("\n"):
            if line.startswith('"{'):
                es.append(json.loads(json.loads(line)))
        if not es:
            raise CheckError("no transitions emitted by " + module)
        return es

    def judge(self, module, trace, consts="", chunk=None, workers=NCPU, timeout=800, heap="6g", per_episode=False,
              count=True, invariants=()):
        """Have TLC decide every event of an ndjson trace. The trace modules print <<"BAD", l>> for every
        event the specification does not allow."""
        lines = [x for x in open(trace).read().split("\n") if x]
        crash = None
        if lines and '"op":"CRASH"' in lines[-1].replace(" ", ""):
            crash = json.loads(lines[-1])
            lines = lines[:-1]
        elif lines and '"op":"END"' in lines[-1]:
            lines = lines[:-1]
        bad = []
        if lines:
            tr = os.path.join(self.out, "j_" + os.path.basename(trace))
            open(tr, "w").write("\n".join(lines) + "\n")
            n = len(lines)
            cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + consts
            for iv in invariants:
                cfg += "INVARIANT %s\n" % iv
            env = {"TRACE": tr, "CHUNK": str(chunk or max(1, (n + 4 * workers - 1) // (4 * workers)))}
            ok, gen, dis, out = self._tlc(module, cfg, workers, env=env, timeout=timeout, heap=heap)
            if not ok or dis is None:
                sys.stderr.write(out[-4000:])
                raise CheckError("TLC could not evaluate the trace with " + module)
            bad = sorted({int(x) for x in re.findall(r'<<"BAD", (\d+)', out)})
            stop = sum(int(x) for x in re.findall(r'<<"SKIP", (\d+)', out))
            if not bad and dis < n:
                raise CheckError("%s consumed %d of %d events" % (module, dis, n))
            eps = len({json.loads(x).get("ep", 0) for x in lines}) if per_episode else n
            ops = collections.Counter(m.group(1) for m in (re.search(r'"op": ?"([^"]+)"', x) for x in lines) if m)
            if count:
                with self.lock:
                    self.transitions += gen
                    self.states += dis
                    self.events += n
                    self.traces += eps
                    self.opcounts.update(ops)
                    if len(self.samples) < 8:
                        for k in (n // 3, n - 1):
                            self.samples.append(lines[k][:400])
        res = []
        for l in bad:
            ev = json.loads(lines[l - 1])
            ctx = [json.loads(x) for x in lines[max(0, l - 200):l]]
            if per_episode:
                ctx = [c for c in ctx if c.get("ep") == ev.get("ep")]
            else:
                ctx = [ev]
            res.append((ev, ctx, "step %d of %s is not allowed by %s" % (l, os.path.basename(trace), module)))
        if crash:
            ctx = [json.loads(x) for x in lines[-100:]]
            if per_episode and ctx:
                ctx = [c for c in ctx if c.get("ep") == ctx[-1].get("ep")]
            res.append((crash, ctx[-60:], "the code crashed, hung or aborted: %s" % crash.get("why")))
        return res

    def decide(self, module, exe, args=(), stdin=None, tag="trace", run_timeout=240, **kw):
        """run + judge; a rejection is reported only if a re-run repeats it."""
        path = self.run(exe, args, stdin, run_timeout, tag)
        res = self.judge(module, path, **kw)
        if res:
            path2 = self.run(exe, args, stdin, run_timeout, tag + "_again")
            res2 = self.judge(module, path2, **dict(kw, count=False))
            if not res2:
                raise CheckError("a rejection of %s did not repeat" % tag)
            res = res2
        for ev, ctx, why in res:
            hit = [k for k in self.known if self._matches(k, ev)]
            if hit:
                self.known_hit[hit[0]["id"]] += 1
            else:
                self.violations.append({"driver": os.path.basename(exe), "args": [str(a) for a in args],
                                        "why": why, "event": ev, "context": ctx})
        return res

    def decide_all(self, jobs, par=4):
        """Several decide() calls side by side; jobs: dicts of its arguments."""
        def one(j):
            j = dict(j)
            j.setdefault("workers", max(1, NCPU // par))
            j.setdefault("heap", "3g")
            return self.decide(j.pop("module"), j.pop("exe"), j.pop("args", ()), **j)
        with ThreadPoolExecutor(par) as ex:
            return list(ex.map(one, jobs))

    # ---------------------------------------------------------------- finish
    def finish(self, assumptions=(), extra=None):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_judged": self.events,
            "operations": dict(self.opcounts.most_common(60)),
            "models": self.models,
            "samples": self.samples[:8],
            "runs": self.notes[:40],
        }
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            rp = os.path.join(self.out, "replay.json")
            json.dump(self.violations[:50], open(rp, "w"), indent=1)
            print("%d rejected steps; first: %s" % (len(self.violations), json.dumps(self.violations[0]["event"])[:600]))
            print("   " + self.violations[0]["why"])
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF)))
            return 1
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (self.pid, self.states, self.traces, self.events, time.time() - self.t0))
        return 0


def main(pid, fn, **kw):
    c = Check(pid)
    try:
        extra = fn(c)
        rc = c.finish(**(extra or {}))
    except CheckError as e:
        sys.stderr.write("CHECK ERROR: %s\n" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    # drop bulky by-products, keep the replay file
    for f in os.listdir(c.out):
        if f != "replay.json" and not os.environ.get("VERIF_KEEP"):
            p = os.path.join(c.out, f)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    sys.exit(rc)


# -------------------------------------------------------------------- walks
def walks(edges, rng, maxlen=150, key=lambda s: json.dumps(s, sort_keys=True), limit=None):
    """Walks from the initial state that together take every transition (edges: {p,a,q})."""
    out = collections.defaultdict(list)
    seen = set()
    init = None
    for e in edges:
        p, q = key(e["p"]), key(e["q"])
        a = json.dumps(e["a"], sort_keys=True)
        if (p, a, q) in seen:
            continue
        seen.add((p, a, q))
        if init is None:
            init = p
        out[p].append((e["a"], q))
    # predecessor tree for shortest paths from init
    todo = {p: list(range(len(v))) for p, v in out.items()}
    for v in todo.values():
        rng.shuffle(v)
    par = {init: None}
    dq = collections.deque([init])
    while dq:
        s = dq.popleft()
        for i, (a, q) in enumerate(out.get(s, ())):
            if q not in par:
                par[q] = (s, i)
                dq.append(q)

    def path_to(s):
        r = []
        while par[s] is not None:
            s, i = par[s]
            r.append((s, i))
        return r[::-1]
    remaining = sum(len(v) for v in todo.values())
    pend = [s for s in todo if todo[s] and s in par]
    pend.sort(key=lambda s: len(path_to(s)))
    res = []
    covered = 0
    for s0 in pend:
        while todo[s0]:
            w = []
            for (s, i) in path_to(s0):
                if i in todo[s]:
                    todo[s].remove(i)
                    covered += 1
                w.append(out[s][i][0])
            s = s0
            hops = 0
            while len(w) < maxlen:
                if todo.get(s):
                    i = todo[s].pop()
                    covered += 1
                    w.append(out[s][i][0])
                    s = out[s][i][1]
                    hops = 0
                    continue
                # nearest state with pending edges, bounded search
                q = collections.deque([(s, ())])
                vis = {s}
                hit = None
                while q and len(vis) < 400:
                    x, pth = q.popleft()
                    if todo.get(x):
                        hit = (x, pth)
                        break
                    for i, (a, y) in enumerate(out.get(x, ())):
                        if y not in vis:
                            vis.add(y)
                            q.append((y, pth + ((x, i),)))
                if not hit:
                    break
                for (x, i) in hit[1]:
                    w.append(out[x][i][0])
                s = hit[0]
            if not w:
                break
            res.append(w)
            if limit and len(res) >= limit:
                return res, covered, remaining
    return res, covered, remaining
