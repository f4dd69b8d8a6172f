"""Shared machinery of the checks: build from /repo, run TLC, drive the real code, report.

Outcomes of a check: exit 0 (held), exit 1 + VIOLATION line.  Anything else is an
error of the check itself (exit 2)."""
import os, sys, json, time, subprocess, fcntl, shutil, random, re, signal, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
PY = "/usr/bin/python3"

class CheckError(Exception):
    "the check itself could not work (not a verdict about the property)"

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
T0 = time.time()

# ------------------------------------------------------------------ build
CXX = "g++"
CXXFLAGS = ["-std=gnu++14", "-O1", "-g0", "-w", "-fPIC"]

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout

DRIVER_SRC = ["main.cpp", "d_config.cpp", "d_lattice.cpp", "d_machine.cpp", "d_conc.cpp", "d_files.cpp", "d_h5.cpp", "d_cli.cpp", "d_optics.cpp"]

def build(targets=("driver",)):
    """targets: subset of {'driver','py','cli','core'}.  Returns a dict of paths."""
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cm = os.path.join(BUILD, "cm")
        env = dict(os.environ, CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1")
        if not os.path.exists(os.path.join(cm, "build.ninja")):
            shutil.rmtree(cm, ignore_errors=True)
            _run(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-Wno-dev",
                  "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                  "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g0",
                  "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O1 -g0",
                  "-DPYTHON_EXECUTABLE=" + PY, "-DNEED_PYTHON=ON",
                  "-DUSE_HDF5=ON", "-DHDF5_CXX_INCLUDE_DIR=/usr/include/hdf5/serial",
                  "-DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/python-module.cmake"], env=env)
        tg = ["flame_core"]
        if "py" in targets:
            tg += ["_internal", "pyfiles"]
        if "cli" in targets:
            tg += ["flamecli"]
        procs = []
        if "driver" in targets:
            hb = os.path.join(BUILD, "hb")
            os.makedirs(hb, exist_ok=True)
            with open(os.path.join(hb, "build.ninja"), "w") as f:
                f.write("rule cxx\n  command = %s %s -I%s/src -I/usr/include/hdf5/serial -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n"
                        % (CXX, " ".join(CXXFLAGS), REPO))
                objs = []
                for s in DRIVER_SRC:
                    if not os.path.exists(os.path.join(HARNESS, s)):
                        continue
                    o = s[:-4] + ".o"
                    objs.append(o)
                    f.write("build %s: cxx %s/%s\n" % (o, HARNESS, s))
                f.write("build objs: phony %s\n" % " ".join(objs))
            procs.append(subprocess.Popen(["ninja", "-C", hb, "objs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        _run(["ninja", "-C", cm] + tg, env=env)
        for p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise CheckError("harness build failed\n" + out[-4000:])
        R = dict(core=os.path.join(cm, "src", "libflame_core.so"),
                 cli=os.path.join(cm, "tools", "flame"),
                 pypath=os.path.join(cm, "python"))
        if "driver" in targets:
            exe = os.path.join(hb, "vdrv")
            _run([CXX, "-o", exe] + [os.path.join(hb, o) for o in objs] +
                 ["-L" + os.path.join(cm, "src"), "-lflame_core", "-Wl,-rpath," + os.path.join(cm, "src"),
                  "-lboost_thread", "-lboost_system", "-lboost_filesystem", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial",
                  "-lhdf5_cpp", "-lhdf5", "-lpthread", "-ldl", "-rdynamic"])
            R["driver"] = exe
    log("built %s in %.1fs" % (",".join(targets), time.time() - t))
    return R

# ------------------------------------------------------------------ scratch
class Work:
    def __init__(self, name):
        base = os.path.join(BUILD, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)
    def path(self, *a):
        return os.path.join(self.dir, *a)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

# ------------------------------------------------------------------ TLC
class TLCResult:
    pass

def tlc(module, cfg, work, name=None, workers=8, simulate=None, depth=None, seed=None,
        env=None, timeout=600, heap="6g", extra=(), expect_ok=True, xss="16m"):
    """Run TLC on spec/<module>.tla with the given cfg text; lines printed as "@@<json>" are
    collected in .out (parsed)."""
    name = name or module
    d = work.path("tlc-" + name)
    os.makedirs(d, exist_ok=True)
    cfgp = os.path.join(d, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + xss, "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-config", cfgp, "-noGenerateSpecTE",
           "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 30)]
        cmd += ["-seed", str(seed if seed is not None else SEED)]
    cmd += list(extra)
    cmd += [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as of:
        try:
            p = subprocess.run(cmd, stdout=of, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on " + name)
    R = TLCResult()
    R.out = []
    R.rc = rc
    R.text = []
    with open(outp) as f:
        for line in f:
            if line.startswith('"@@'):
                s = line.rstrip("\n")[3:-1]
                R.out.append(json.loads(s.replace('\\"', '"').replace('\\\\', '\\')))
            else:
                R.text.append(line)
    txt = "".join(R.text)
    R.log = txt
    R.states = R.distinct = 0
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states", txt):
        pass
    if m:
        R.states, R.distinct = (int(x.replace(",", "")) for x in m.groups())
    m = re.search(r"The number of states generated: ([\d,]+)", txt)
    if m:
        R.states = int(m.group(1).replace(",", "")); R.distinct = R.states
    R.ok = rc == 0
    R.wall = time.time() - t
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    if expect_ok and not R.ok:
        raise CheckError("TLC rejected specification %s (rc=%d):\n%s" % (name, rc, txt[-6000:]))
    log("TLC %s: %d states, %d distinct, %d exported, %.1fs" % (name, R.states, R.distinct, len(R.out), R.wall))
    return R

# ------------------------------------------------------------------ driver process
class Crash(Exception):
    pass

class Driver:
    "pipe to the C++ driver: one JSON command per line, one JSON answer per line"
    def __init__(self, exe, args=(), env=None, cwd=None, timeout=120):
        self.exe, self.args, self.env, self.cwd, self.timeout = exe, list(args), env, cwd, timeout
        self.p = None
        self.n = 0
    def start(self):
        e = dict(os.environ); e.update(self.env or {})
        self.errf = tempfile.TemporaryFile("w+")
        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, text=True, env=e, cwd=self.cwd, bufsize=1 << 16)
    def _dead(self):
        try:
            rc = self.p.wait(5)
        except Exception:
            self.p.kill(); rc = "hang"
        self.errf.seek(0)
        err = self.errf.read()[-500:]
        self.p = None
        return Crash("driver process ended (%s) %s" % (rc, err))
    def batch(self, cmds):
        """send all commands, return all answers; raises Crash (attribute .done = answers so far)"""
        if self.p is None:
            self.start()
        res = []
        p = self.p
        timer = threading.Timer(self.timeout, p.kill)
        timer.start()
        def feed():
            try:
                for c in cmds:
                    p.stdin.write(json.dumps(c) + "\n")
                p.stdin.write('{"op":"_sync"}\n')
                p.stdin.flush()
            except (BrokenPipeError, ValueError):
                pass
        th = threading.Thread(target=feed)
        th.start()
        try:
            for _ in range(len(cmds) + 1):
                line = p.stdout.readline()
                if not line:
                    th.join(5)
                    ex = self._dead()
                    ex.done = res
                    raise ex
                try: res.append(json.loads(line))
                except ValueError:
                    p.kill(); th.join(5)          # cut short or overwritten
                    ex = self._dead(); ex.done = res
                    raise ex
        finally:
            timer.cancel()
        th.join()
        self.n += len(cmds)
        return res[:-1]
    def one(self, **c):
        return self.batch([c])[0]
    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
            self.p = None

# ------------------------------------------------------------------ graph walks
def cover_walks(edges, init, rng, maxlen=400, near=150):
    """edges: list of (src, dst, payload); yields walks (lists of edge indices) from init that
    together traverse every edge reachable from init."""
    from collections import defaultdict, deque
    outs = defaultdict(list)
    for i, (s, d, _) in enumerate(edges):
        outs[s].append(i)
    parent = {init: None}
    dq = deque([init])
    while dq:
        s = dq.popleft()
        for i in outs[s]:
            d = edges[i][1]
            if d not in parent:
                parent[d] = i; dq.append(d)
    todo = {s: list(outs[s]) for s in parent if outs[s]}
    for v in todo.values():
        rng.shuffle(v)
    pending = sorted(todo)
    rng.shuffle(pending)
    while pending:
        if not todo[pending[-1]]:
            pending.pop(); continue
        u = pending[-1]
        walk = []
        while u != init:
            walk.append(parent[u]); u = edges[parent[u]][0]
        walk.reverse()
        s = pending[-1]
        while len(walk) < maxlen:
            if todo.get(s):
                i = todo[s].pop(); walk.append(i); s = edges[i][1]
                continue
            seen = {s: None}; q = deque([s]); goal = None; steps = 0
            while q and steps < near:
                x = q.popleft(); steps += 1
                if todo.get(x):
                    goal = x; break
                for i in outs[x]:
                    d = edges[i][1]
                    if d not in seen:
                        seen[d] = i; q.append(d)
            if goal is None:
                break
            path = []
            while goal != s:
                path.append(seen[goal]); goal = edges[seen[goal]][0]
            walk += reversed(path)
            s = edges[walk[-1]][1]
        yield walk

# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.level = level
        self.work = Work(prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.viol = []
        self.known_hit = {}
        self.rng = random.Random(SEED * 7919 + sum(map(ord, prop)))
        self.known = load_known(prop)
    def sub(self, i):
        import copy
        c = copy.copy(self)
        c.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        c.viol = []; c.known_hit = {}
        c.rng = random.Random(SEED * 104729 + i * 31 + sum(map(ord, self.prop)))
        return c
    @property
    def thorough(self):
        return self.tier == "thorough"
    def model(self, R):
        self.cov["states"] += R.distinct
        self.cov["transitions"] += R.states
    def traces(self, n=1):
        self.cov["traces_validated_against_impl"] += n
    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, s):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(s)
    def violation(self, key, detail, replay):
        """key identifies the failing input/history class for the known-findings file"""
        for k in self.known:
            if k["key"] == key:
                self.known_hit[key] = k["what"]
                return
        self.viol.append((key, detail, replay))
        log("MISMATCH", key, detail[:1500])
    def finish(self):
        wall = time.time() - T0
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(wall, 1), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        rc = 0
        if self.viol:
            rp = os.path.join(VERIF, "evidence", "%s.replay.json" % self.prop)
            with open(rp, "w") as f:
                json.dump([dict(key=k, detail=d, replay=r) for k, d, r in self.viol[:20]], f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            for k, d, r in self.viol[:5]:
                print("   ", k, ":", d[:600].replace("\n", " "))
            rc = 1
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.work.close()
        log("done rc=%d" % rc, json.dumps({k: v for k, v in self.cov.items() if k != "samples"}))
        return rc

def parallel(C, jobs, nproc=6):
    """run jobs (name, function) in forked processes, each with its own collector; merge into C"""
    import multiprocessing as mp, traceback
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    def run(i):
        name, fn = jobs[i]
        try:
            c = C.sub(i)
            fn(c)
            q.put((i, None, c.cov, c.viol, c.known_hit))
        except Crash as e:
            c.violation("crash", "%s: %s" % (name, e), name)
            q.put((i, None, c.cov, c.viol, c.known_hit))
        except CheckError as e:
            q.put((i, str(e), None, None, None))
        except BaseException:
            q.put((i, traceback.format_exc(), None, None, None))
        q.close(); q.join_thread()
        os._exit(0)
    todo = list(range(len(jobs))); live = {}; err = []
    import queue as _q
    while todo or live:
        while todo and len(live) < nproc and not (len(C.viol) > 5):
            i = todo.pop(0)
            p = ctx.Process(target=run, args=(i,)); sys.stdout.flush(); p.start(); live[i] = p
        if len(C.viol) > 5: todo = []
        if not live: break
        try:
            i, e, cov, viol, kh = q.get(timeout=5)
        except _q.Empty:
            for i, p in list(live.items()):
                if not p.is_alive():
                    try:
                        j, e, cov, viol, kh = q.get(timeout=2)
                    except _q.Empty:
                        live.pop(i); err.append("job %s died" % jobs[i][0]); continue
                    break
            else:
                continue
            i = j
        live.pop(i).join()
        if e: err.append("%s: %s" % (jobs[i][0], e)); continue
        for k, v in cov.items():
            if k == "samples":
                for x in v: C.sample(x)
            elif k.endswith("worst_error"): C.cov[k] = max(C.cov.get(k, 0), v)
            elif isinstance(v, (int, float)): C.cov[k] = C.cov.get(k, 0) + v
        C.viol += viol; C.known_hit.update(kh)
    if err and not C.viol:
        raise CheckError("\n".join(err))

def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), what=m.group(3)))
    return out

def main(prop, fn, level="model_checking"):
    C = None
    try:
        C = Check(prop, level)
        try: fn(C)
        except Crash as e: C.violation("crash", "the code under test ended: %s" % e, "")
        if C.cov["traces_validated_against_impl"] == 0 and not C.viol:
            raise CheckError("nothing was validated against the implementation")
        rc = C.finish()
    except CheckError as e:
        print("CHECK-ERROR", e)
        if C: C.work.close()
        rc = 2
    sys.stdout.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)
