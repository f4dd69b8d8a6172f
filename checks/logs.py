"""C20: log messages -- behaviours of spec/Log.tla replayed (C++ sinks, and the Python bridge), concurrent histories
explained by spec/LogLin.tla."""
import os, sys, json, random, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mach

CFG = """SPECIFICATION Spec
PROPERTY NothingBelow
PROPERTY ExactlyOnce
PROPERTY SilentCalls
INVARIANT Export
CHECK_DEADLOCK FALSE
"""
LIN = """SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
"""
LEVELS = [0, 10, 20, 30, 40]
TEXTS = ["plain text", "", "two\nlines\n", "x" * 70000, "nul\0inside", "%s %d %n {0} %%", "\n\n", "gr\u00fc\u00df", "tab\tand \"quotes\" \\ back", " "]

# operations of the library that log
def lat(sim, els, **kw): return dict(kw, sim_type=sim, elements={"c": els})
def thin(text, step):
    "the cavity description with a coarse field table: as many messages as a behaviour of the specification can hold"
    a, b = text.index("Ez"), None
    a = text.index("[", a) + 1; b = text.index("]", a)
    v = [x.strip() for x in text[a:b].split(",")]
    rows = list(zip(v[::2], v[1::2]))
    return text[:a] + ",".join(x for r in rows[::step] for x in r) + text[b:]
def runs(d):
    os.makedirs(d, exist_ok=True)
    for n in ("thinlenlon_41", "thinlenlon_85_p"):
        open("%s/%s.lat" % (d, n), "w").write(thin(open("%s/%s.lat" % (mach.DATA, n)).read(), 60))
    b = mach.MOM_INITS[0][0]; b2 = mach.MOM_INITS[3][0]
    dr = dict(name="d", type="drift", L=0.25)
    cav = lambda *a, **k: dict(mach.rfc(*a, **k), name="c", type="rfcavity")
    small = lambda n, f, phi, scl, **k: cav("Generic", f, phi, scl, **dict(k, datafile=n + ".lat", Eng_Data_Dir=d))
    return [lat("Vector", [dr, dict(name="q", type="quadrupole", L=0.25, K=0.5)], **mach.LIN_INITS[0][0]),
            lat("MomentMatrix", [dr], **b),
            lat("MomentMatrix", [dr, small("thinlenlon_41", 80.5e6, -35.0, 0.6), dr], **b2),
            lat("MomentMatrix", [small("thinlenlon_85_p", 80.5e6, -35.0, 0.6)], **b2),
            lat("MomentMatrix", [small("thinlenlon_85_p", 80.5e6, -35.0, 60.0)], **b),
            lat("MomentMatrix", [dr, cav("0.041QWR", 80.5e6, -35.0, 0.6, forcettfcalc=1.0)], **b2)]
RUNS = []
BIG = 6
PRE = [dict(a="linear"), dict(a="moment")]
def real(r, **k): return dict(a="real", conf=RUNS[r - 1], **k)

def calibrate(exe):
    "what every operation emits, and its result, with nothing suppressed and a plain sink"
    drv = vf.Driver(exe)
    cmds = [dict(op="c_reset", level=0, sinks=[dict(k=1, on=[])], sink=1), dict(op="c_seq", acts=PRE)]
    cmds += [dict(op="c_seq", acts=[real(r + 1)]) for r in range(len(RUNS))]
    res = drv.batch(cmds)[2:]
    drv.close()
    out = []
    for x in res:
        if x["ev"][-1]["r"] in ("error", "key_error", "logic_error"): raise vf.CheckError("calibration run refused")
        out.append(dict(msgs=[(e["l"], e["t"]) for e in x["ev"] if "d" in e], fp=x["ev"][-1]["r"]))
    return out

def with_texts(cal):
    "text ids of the specification: first TEXTS, then those of the runs"
    texts = list(TEXTS); ids = {}
    for c in cal:
        for l, t in c["msgs"]:
            if t not in ids: texts.append(t); ids[t] = len(texts)
    return texts, [dict(msgs=[dict(l=l, t=ids[t]) for l, t in c["msgs"]]) for c in cal]

def act(call, texts):
    a = call["a"]
    if a == "log": return dict(a="log", l=call["l"], t=texts[call["t"] - 1])
    if a == "run": return real(call["r"])
    return dict(call)
def sinkdef(sinks, texts):
    out = []
    for k, b in enumerate(sinks, 1):
        log = dict(a="log", l=b["l"], t=texts[b["t"] - 1]); swap = dict(a="sink", k=b["k"])
        out.append(dict(k=k, on=dict(none=[], log=[log], swap=[swap], swaplog=[swap, log], run=[real(b["r"])])[b["do"]]))
    return out
def B(do="none", l=30, t=1, k=0, r=1): return dict(do=do, l=l, t=t, k=k, r=r)

def campaign(C, exe, name, cal, par, simulate=None, keep=None):
    texts, rr = with_texts(cal)
    small = [i + 1 for i, c in enumerate(cal) if len(c["msgs"]) <= 60]
    par = dict(dict(sink0=1, thr0=30, sinks=[B(), B()], levels=LEVELS, texts=2, use=small[:1], swap=[0, 1, 2], thrs=[0, 20, 41]), **par)
    par["runs"] = rr
    pf = C.work.path(name + ".json"); json.dump(par, open(pf, "w"))
    R = vf.tlc("Log", CFG, C.work, name, env={"MPARAM": pf}, simulate=simulate, depth=par["depth"] + 3, seed=vf.SEED * 13 + len(name), workers=2)
    C.model(R)
    H = R.out
    if keep and len(H) > keep: H = C.rng.sample(H, keep)
    drv = vf.Driver(exe, timeout=120)
    sd = sinkdef(par["sinks"], texts)
    for i in range(0, len(H), 200):
        part = H[i:i + 200]; cmds = []
        for h in part:
            cmds += [dict(op="c_reset"), dict(op="c_seq", acts=PRE), dict(op="c_reset", keep=1, level=par["thr0"], sinks=sd, sink=par["sink0"]),
                     dict(op="c_seq", acts=[act(s["call"], texts) for s in h])]
        try: res = drv.batch(cmds)
        except vf.Crash as e:
            C.violation("stuck", "%s: %s" % (name, e), cmds[len(e.done):len(e.done) + 1]); return
        for k, h in enumerate(part):
            r = res[4 * k + 3]
            bad = judge(h, r, texts, cal)
            if bad:
                C.violation("sequence", "%s: %s after %s" % (name, bad, json.dumps([s["call"] for s in h])), dict(history=h, sinks=par["sinks"], got=json.dumps(r)[:3000]))
                if len(C.viol) > 5: return
        C.traces(len(part))
    drv.close()
    if H: C.sample(dict(sequence=[s["call"] for s in H[-1]]))

def judge(h, r, texts, cal):
    if r["misused"]: return "a sink was called after it was destroyed, or an exception left a call"
    calls, d = [], []
    for e in r["ev"]:
        if "d" in e: d.append(e)
        elif e["ns"] == 0: calls.append((e, d)); d = []
        elif e["a"]["a"] == "real" and e["r"] != cal[RUNS.index(e["a"]["conf"])]["fp"]: return "a simulation within a sink gives another result"
    if len(calls) != len(h): return "calls missing"
    for i, ((e, d), s) in enumerate(zip(calls, h)):
        want = [(x["d"], x["l"], texts[x["t"] - 1]) for x in s["ev"]]
        got = [(x["d"], x["l"], x["t"]) for x in d]
        if got != want:
            j = next((x for x in range(min(len(got), len(want))) if got[x] != want[x]), min(len(got), len(want)))
            return "call %d %s: delivery %d is %s instead of %s (%d of %d)" % (i, s["call"], j, str(got[j:j + 1])[:300], str(want[j:j + 1])[:300], len(got), len(want))
        if s["call"]["a"] == "run":
            if e["r"] != cal[s["call"]["r"] - 1]["fp"]: return "call %d %s: the simulation gives another result" % (i, s["call"])
        elif e["r"] != "ok": return "call %d %s: %s" % (i, s["call"], e["r"])
        for x in d:
            if x["by"] >= 0 and not (x["f"].endswith(".cpp") and x["n"] > 0): return "message without its origin"
    return None

def threads(C, exe, name, nthreads, nops, rounds):
    drv = vf.Driver(exe, timeout=90); rng = C.rng
    done = 0
    while done < rounds and len(C.viol) < 5:
        rs = []
        cmds = []
        for _ in range(min(150, rounds - done)):
            thr = rng.choice([0, 10, 30, 35]); s0 = rng.randint(0, 3); nid = [0]
            def one(depth=0):
                nid[0] += 1; i = nid[0]; x = rng.random()
                if x < 0.35: return dict(a="sink", k=rng.choice([0, 1, 2, 3, 3]), id=i)
                if x < 0.45 and depth == 0 and thr > 20:
                    return dict(a="build", n="cst", id=i, els=[dict(e="x", do=[one(1) for _ in range(rng.randint(1, 2))])])
                return dict(a="log", l=rng.choice(LEVELS), t="m%d " % i * rng.choice([1, 1, 3, 500]), id=i)
            T = [[one() for _ in range(rng.randint(max(1, nops - 2), nops))] for _ in range(nthreads)]
            cmds.append((dict(op="c_reset", level=60), dict(op="c_seq", acts=[dict(a="regS", n="cst", v=1), dict(a="regE", n="cst", e="x", v=1)]),
                         dict(op="c_reset", keep=1, level=thr, sink=s0), dict(op="c_run", threads=T, perturb=rng.choice([0, 8, 30, 80]), seed=rng.randrange(1 << 30)), thr, s0))
        done += len(cmds)
        try: res = drv.batch([c for t in cmds for c in t[:4]])
        except vf.Crash as e:
            k = min(len(e.done) // 4, len(cmds) - 1)
            C.violation("stuck", "%s: %s in %s" % (name, e, json.dumps(cmds[k][3])[:1500]), cmds[k]); return
        for i, t in enumerate(cmds):
            r = res[4 * i + 3]
            if r["misused"]: C.violation("sink", "%s: a sink was called after it was destroyed, or an exception left a call" % name, t)
            got = {}
            for e in r["ev"]:
                if "d" in e: got.setdefault(e["by"], []).append(e)
            ops = []
            for e in r["ev"]:
                if "d" in e or e["a"]["a"] == "build": continue
                a = e["a"]
                o = dict(a=a["a"], l=a.get("l", 0), k=a.get("k", 0), to=[x["d"] for x in got.get(e["id"], [])], inv=e["inv"], res=e["res"])
                for x in got.get(e["id"], []):
                    if (x["l"], x["t"]) != (a.get("l"), a.get("t")): C.violation("content", "%s: %s delivered as %s" % (name, str(a)[:200], str(x)[:200]), t)
                ops.append(o)
            rs.append((dict(thr=t[4], sink0=t[5], ops=ops), t[3]))
        nm = "%s-%d" % (name, done)
        pf = C.work.path(nm + ".json"); json.dump(dict(hist=[o for o, _ in rs]), open(pf, "w"))
        R = vf.tlc("LogLin", LIN, C.work, nm, env={"MPARAM": pf}, workers=1)
        C.model(R); good = set(R.out)
        for k, (o, rep) in enumerate(rs, 1):
            if k not in good: C.violation("interleaving", "%s: no order of the calls explains the deliveries: %s" % (nm, json.dumps(sorted(o["ops"], key=lambda x: x["inv"]))), dict(history=o, program=rep))
        C.traces(len(rs))
        C.count("concurrent_operations", sum(len(o["ops"]) for o, _ in rs))
    drv.close()

def stress(C, exe, rounds, n):
    "many messages against many exchanges: every message once, no sink used after its end"
    drv = vf.Driver(exe, timeout=120); rng = C.rng
    for k in range(rounds):
        nt = rng.randint(1, 4); ns = rng.randint(1, 3)
        T = [[dict(a="spin", n=n, id=i + 1)] for i in range(nt)] + [[dict(a="sink", k=rng.randint(1, 3)) for _ in range(n)] for _ in range(ns)]
        cmd = dict(op="c_run", threads=T, perturb=rng.choice([0, 2, 8]), seed=rng.randrange(1 << 30))
        try: r = drv.batch([dict(op="c_reset", level=30, sink=1), cmd])[1]
        except vf.Crash as e: C.violation("stuck", "exchange: %s" % e, cmd); return
        if r["misused"]: C.violation("sink", "exchange: a sink was called after it was destroyed", cmd)
        for i in range(nt):
            m = sum(1 for e in r["ev"] if "d" in e and e["by"] == i + 1 and e["t"] == "spin")
            if m != n: C.violation("count", "exchange: %d of %d messages delivered" % (m, n), cmd)
        C.traces(); C.count("concurrent_operations", n * (nt + ns))
    drv.close()

def default_sink(C, exe):
    "the sink that is there when none is installed writes to standard error"
    acts, want = [], []
    for i, l in enumerate(LEVELS * 6):
        t = "msg-%d-%s" % (i, ["", "\n", "\nmore\n", "y" * 3000, " end", "%s"][i // 5])
        if i % 7 == 3: acts.append(dict(a="sink", k=1))
        if i % 7 == 5: acts.append(dict(a="sink", k=0))
        acts.append(dict(a="log", l=l, t=t)); want.append(t if l >= 20 and not 3 <= i % 7 < 5 else None)
    env = dict(os.environ)
    p = subprocess.run([exe], input="\n".join(json.dumps(c) for c in [dict(op="c_reset", level=20), dict(op="c_seq", acts=acts)]) + "\n", capture_output=True, text=True, timeout=60)
    err, pos = p.stderr, 0
    for i, t in enumerate(want):
        if t is None:
            if "msg-%d-" % i in err: C.violation("default", "message %d appears on standard error" % i, acts)
            continue
        if err.count("msg-%d-" % i) != 1: C.violation("default", "message %d appears %d times on standard error" % (i, err.count("msg-%d-" % i)), acts); continue
        q = err.find(t, pos)
        if q < 0: C.violation("default", "message %d is not whole, or out of order" % i, acts); continue
        pos = q
    C.traces()

class Py(vf.Driver):
    def __init__(self, B, role, defs):
        super().__init__(vf.PY, [os.path.join(vf.HARNESS, "pyexec.py"), B["pypath"], role, defs], env={"PYTHONDONTWRITEBYTECODE": "1"}, timeout=150)

def trim(t):
    s = t.rstrip("\n")
    return s if s else t
def bridge(C, Bd, cal, name, par, simulate=None, keep=None):
    "the same model with Python's logging as the sink: handlers that run something, raise, or emit"
    texts, rr = with_texts(cal)
    # fingerprints are of another process and language: results are compared with an undisturbed run there
    par = dict(dict(thr0=30, levels=[], texts=0, swap=[], thrs=[0, 10, 20, 30, 40, 41], sink0=1), **par)
    par["runs"] = rr
    pf = C.work.path(name + ".json"); json.dump(par, open(pf, "w"))
    R = vf.tlc("Log", CFG, C.work, name, env={"MPARAM": pf}, simulate=simulate, depth=par["depth"] + 3, seed=vf.SEED * 11 + len(name), workers=2)
    C.model(R); H = R.out
    if keep and len(H) > keep: H = C.rng.sample(H, keep)
    df = C.work.path(name + "-d.json"); json.dump(dict(runs=[dict(c, elements=c["elements"]["c"]) for c in RUNS]), open(df, "w"))
    py = Py(Bd, "log", df)
    ref = None
    for i in range(0, len(H), 40):
        part = H[i:i + 40]
        jobs = [dict(acts=[s["call"] for s in h], thr0=par["thr0"], sink=par["sinks"][0], boom=int(k % 3 == 2 and par["sinks"][0]["do"] == "none")) for k, h in enumerate(part)]
        try: res = py.batch(jobs)
        except vf.Crash as e: C.violation("stuck", "%s: %s" % (name, e), jobs[len(e.done):len(e.done) + 1]); return
        for j, h, r in zip(jobs, part, res):
            if ref is None: ref = r["ref"]
            for k, s in enumerate(h):
                want = [[x["l"], trim(texts[x["t"] - 1])] for x in s["ev"]]
                g = r["calls"][k]
                got = [list(x[:2]) for x in g["ev"]]
                if got != want:
                    m = next((x for x in range(min(len(got), len(want))) if got[x] != want[x]), min(len(got), len(want)))
                    C.violation("bridge", "%s: call %d %s: record %d is %s instead of %s (%d of %d)" % (name, k, s["call"], m, str(got[m:m + 1])[:300], str(want[m:m + 1])[:300], len(got), len(want)), j); break
                if any(x[2] != "flame.machine" for x in g["ev"]): C.violation("bridge", "%s: record of another logger" % name, j); break
                if g["err"]: C.violation("bridge", "%s: call %d %s raises %s" % (name, k, s["call"], g["err"]), j); break
                if s["call"]["a"] == "run" and g["fp"] != ref[s["call"]["r"] - 1]: C.violation("bridge", "%s: the simulation gives another result" % name, j); break
            if len(C.viol) > 5: return
        C.traces(len(part))
    py.close()

def pythreads(C, Bd, cal, rounds):
    df = C.work.path("pt-d.json"); json.dump(dict(runs=[dict(c, elements=c["elements"]["c"]) for c in RUNS]), open(df, "w"))
    py = Py(Bd, "logthreads", df)
    rng = C.rng
    for _ in range(rounds):
        thr = rng.choice([0, 10, 20])
        T = [[rng.choice([1, 2, 3, 4]) for _ in range(rng.randint(2, 5))] for _ in range(rng.randint(2, 4))]
        j = dict(thr=thr, threads=T, nest=rng.choice([0, 1]))
        try: r = py.batch([j])[0]
        except vf.Crash as e: C.violation("stuck", "python threads: %s" % e, j); return
        for k, t in enumerate(T):
            want = []
            for x in t:
                m = [[l, trim(s)] for l, s in cal[x - 1]["msgs"] if l >= thr]
                want += m
            got = [list(x) for x in r["recs"][k]]
            if got != want: C.violation("bridge", "python threads: thread %d running %s received %d of %d records" % (k, t, len(got), len(want)), j)
            if r["bad"][k]: C.violation("bridge", "python threads: a simulation gives another result", j)
        C.traces()
    py.close()

def c20(C):
    Bd = vf.build(("driver", "py")); exe = Bd["driver"]; T = C.thorough
    C.assumptions += ["threads: histories recorded under random scheduling perturbation (at allocations, lock operations and within sinks), not every schedule",
                      "the threshold is not changed while threads log (documented as a race)"]
    RUNS[:] = runs(C.work.path("cav"))
    cal = calibrate(exe)
    vf.log("messages of the runs:", [len(c["msgs"]) for c in cal], [sorted({l for l, _ in c["msgs"]}) for c in cal])
    small = [i + 1 for i, c in enumerate(cal) if len(c["msgs"]) <= 60]
    every = [r for r in range(1, len(RUNS) + 1) if r != BIG]
    acting = dict(sinks=[B("log", 30, 4, r=1), B("swap", k=3), B("swaplog", 40, 3, k=1), B("run", r=2)], swap=[0, 1, 2, 3, 4])
    jobs = [("seq3", lambda C: campaign(C, exe, "seq3", cal, dict(depth=3), keep=None if T else 6000)),
            ("act3", lambda C: campaign(C, exe, "act3", cal, dict(acting, depth=3, levels=[20, 30], thrs=[0, 30, 35], use=[1, 2]), keep=None if T else 6000)),
            ("texts", lambda C: campaign(C, exe, "texts", cal, dict(acting, depth=12, texts=len(TEXTS), thrs=[0, 5, 10, 11, 19, 20, 29, 30, 31, 40, 41], use=small), simulate=8000 if T else 1500)),
            ("runs", lambda C: campaign(C, exe, "runs", cal, dict(acting, depth=5, levels=[10, 30], texts=len(TEXTS), thrs=[0, 10, 20, 30, 40], use=every), simulate=2000 if T else 300)),
            ("big", lambda C: campaign(C, exe, "big", cal, dict(depth=3 if T else 2, levels=[], swap=[0, 1], thrs=[0, 10, 20], use=[BIG]))),
            ("stress", lambda C: stress(C, exe, 300 if T else 60, 400)),
            ("default", lambda C: default_sink(C, exe)),
            ("py2", lambda C: bridge(C, Bd, cal, "py2", dict(depth=2, sinks=[B()], use=every))),
            ("pyrun", lambda C: bridge(C, Bd, cal, "pyrun", dict(depth=3, sinks=[B("run", r=2)], use=[1, 2], thrs=[0, 10, 20, 30]), keep=None if T else 150)),
            ("pysim", lambda C: bridge(C, Bd, cal, "pysim", dict(depth=8, sinks=[B()], use=every), simulate=300 if T else 40)),
            ("pythreads", lambda C: pythreads(C, Bd, cal, 100 if T else 15))]
    for nt, no in [(2, 6), (3, 5), (5, 4)]:
        jobs.append(("threads%d" % nt, lambda C, nt=nt, no=no: threads(C, exe, "threads%d" % nt, nt, no, 12000 if T else 1500)))
    vf.parallel(C, jobs, 6)

if __name__ == "__main__":
    vf.main("C20", c20)
