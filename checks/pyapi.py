#!/usr/bin/env python3
"C19: the Python interface (spec/PyApi.tla, spec/PyConv.tla)"
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf, mach

# --- concrete objects -----------------------------------------------------------------------------------------------
def E(name, typ, *alts): return [mach.el(name, typ, **a) for a in alts]
def lat(kind, glob, *elems): return dict(kind=kind, globals=glob, elems=list(elems), n=len(elems))
B0 = mach.beam(0.5e6, [33, 34], [10111.0, 10531.0])
B1 = mach.beam(0.62e6, [31, 32, 33], [1.0, 2.0, 4.0], sh=1)
G36 = [float((5 * i + 3) % 7 - 3) for i in range(36)]
H36 = [float((3 * i + 1) % 5 - 2) for i in range(36)]
DEF = dict(
    lats=[lat(1, {"sim_type": "MomentMatrix", **B0}, E("d0", "drift", dict(L=.25), dict(L=.5)), E("q1", "quadrupole", dict(L=.25, B2=5.), dict(L=.25, B2=-3.), dict(L=.5, B2=1.)),
              E("c2", "rfcavity", mach.rfc("0.041QWR", 80.5e6, -35., .64), mach.rfc("0.041QWR", 80.5e6, -20., .3)), E("d0", "drift", dict(L=.25))),
          lat(2, {"sim_type": "Vector", "initial": [1., 2., 3., 4., 5., 6.]}, E("a", "drift", dict(L=.25), dict(L=1.)), E("g", "generic", dict(L=.25, transfer=G36), dict(L=.25, transfer=H36)), E("a", "marker", dict())),
          lat(3, {"sim_type": "TransferMatrix", "initial": [float(i % 7 == 0) for i in range(36)]}, E("s", "sbend", dict(L=.25, phi=.3, K=0.), dict(L=.25, phi=.4, K=.2)), E("a", "drift", dict(L=.25))),
          lat(1, {"sim_type": "MomentMatrix", **B1, "Frf": 80.5e6}, E("s", "source", dict(B1), dict(B1, IonEk=0.7e6)), E("o", "orbtrim", dict(theta_x=1e-3, theta_y=0.), dict(theta_x=0., theta_y=2e-3)),
              E("s1", "solenoid", dict(L=.25, B=2.)), E("m", "marker", dict()))],
    attrs=[["moment0", "moment1", "IonEk", "IonZ", "ref_phis", "pos", "IonQ", "last_caviphi0", "IonW"], ["state", "pos"], ["state", "pos"]],
    inits=[[mach.beam(0.5e6, [33], [100.0], sh=1), mach.beam(0.8e6, [30, 31, 32, 33], [1., 2., 3., 4.])], [{"initial": [0., 1., 0., 2., 0., 3.]}, {"initial": [5., 5., 5., 5., 5., 5.]}], [{"initial": G36}, {"initial": H36}]])
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Export\nINVARIANT SameKind\n"
PROPS = "PROPERTY FailedCallsChangeNothing\nPROPERTY OnlyNamedObjectsChange\n"

class Py(vf.Driver):
    def __init__(self, env, role, work, deff, timeout=240):
        d = work.path("cwd"); os.makedirs(d, exist_ok=True)
        super().__init__(vf.PY, ["-X", "faulthandler", os.path.join(vf.HARNESS, "pyexec.py"), env["pypath"], role, deff], cwd=d, timeout=timeout,
                         env={"PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "LD_LIBRARY_PATH": os.path.dirname(env["core"])})

class Play:
    def __init__(self, C, env, deff):
        self.C = C
        self.x = Py(env, "exec", C.work, deff)
        self.e = Py(env, "eval", C.work, deff)
        self.memo = {}
    def wanted(self, view):
        w = {}
        for what in ("mach", "st", "arr"):
            for i, v in enumerate(view[what]):
                if v["on"]:
                    d = dict(what=what, **{k: v[k] for k in ("t", "scr", "a", "lat", "sel") if k in v})
                    w[what, str(i + 1)] = (json.dumps(d, sort_keys=True), d)
        return w
    def play(self, hs):
        C = self.C
        need = {}
        for h in hs:
            for a in h:
                for k, d in self.wanted(a["view"]).values():
                    if k not in self.memo: need[k] = d
        try: ans = self.e.batch(list(need.values())) if need else []
        except vf.Crash as ex:
            C.violation("crash", "interpreter died evaluating %s: %s" % (list(need.values())[len(ex.done)], ex), dict(job=list(need.values())[len(ex.done)])); return False
        for k, f in zip(need, ans):
            if isinstance(f, str) and f.startswith("error"): C.violation("eval", "correct calls failed: %s for %s" % (f, k), need[k])
            self.memo[k] = f
        jobs = [dict(h=h, seed=vf.SEED * 1000 + C.rng.randrange(10 ** 6)) for h in hs]
        try: R = self.x.batch(jobs)
        except vf.Crash as ex:
            j = jobs[len(ex.done)]
            C.violation("crash", "interpreter died: %s in %s" % (ex, [self.short(a) for a in j["h"]]), j); return False
        for h, r, j in zip(hs, R, jobs):
            C.traces()
            for k, (a, x) in enumerate(zip(h, r)):
                C.count("calls")
                bad = self.judge(a, x)
                if bad:
                    C.violation("behaviour", "%s after %s; call: %s" % (bad, [self.short(b) for b in h[:k]], self.short(a)), j); return False
        return True
    def short(self, a): return {k: v for k, v in a.items() if k != "view"}
    def judge(self, a, x):
        if x.get("leak"): return "exception left behind: " + x["leak"]
        if x["exc"] == "SystemError": return "SystemError: %s" % x.get("msg")
        if a["ok"] and x["exc"]: return "raised %s: %s" % (x["exc"], x.get("msg"))
        if not a["ok"] and not x["exc"]: return "no exception (%s)" % x.get("got")
        if a["op"] == "prop" and a["ok"] and x["seen"] is not None and x["seen"] != a["seen"]: return "observed %s instead of %s" % (x["seen"], a["seen"])
        if a["op"] == "prop" and a["ok"] and a["seen"] and x["seen"] is None: return "no observations"
        w = self.wanted(a["view"])
        have = {(t, i): f for t in ("mach", "st", "arr") for i, f in x[t].items()}
        if set(w) != set(have): return "objects %s instead of %s" % (sorted(have), sorted(w))
        for k in w:
            if have[k] != self.memo[w[k][0]]: return "%s %s is not %s" % (k[0], k[1], w[k][0])
    def close(self):
        self.x.close(); self.e.close()

def par(C, tag, P):
    p = C.work.path("p-%s.json" % tag); open(p, "w").write(json.dumps(P)); return {"MPARAM": p}

def c19(C):
    env = vf.build(("driver", "py"))
    th = C.thorough
    deff = C.work.path("def.json"); open(deff, "w").write(json.dumps(DEF))
    n = Py(env, "needs", C.work, deff); misuse = n.batch([{}])[0]; n.close()
    C.cov["misuses"] = len(misuse)
    nq = lambda c: len(c.get("IonChargeStates", [0]))
    lats = [dict(n=l["n"], q=nq(l["globals"]), src=nq(l["elems"][0][0]) if l["elems"][0][0]["type"] == "source" else 0, kind=l["kind"], alts=[len(e) for e in l["elems"]], back=int(all(e[0]["type"] != "rfcavity" for e in l["elems"]))) for l in DEF["lats"]]
    base = dict(machs=2, states=3, arrs=2, lats=lats, use=[1, 2, 3, 4], hows=6, maxn=4, inits=2, starts=[0, 1, 2, 3, 9], maxes=[0, 1, 2, 100, -1, -2], obs=[[], [0], [0, 1], [1, 1, 0], [3], [2, 0]],
                attrs=[len(a) for a in DEF["attrs"]], maxattr=9, initq=[[nq(c) for c in k] for k in DEF["inits"]], perq=[[int(a in ("moment0", "moment1", "IonEk", "IonZ", "IonQ", "IonW")) for a in k] for k in DEF["attrs"]], vals=2, misuse=misuse, acts="new drop reconf alloc clone prop set read scribble write misuse query other".split(), depth=25)
    def gen(tag, simulate=None, seed=1, cap=None, **kw):
        P = dict(base, **kw)
        R = vf.tlc("PyApi", CFG + ("" if simulate else PROPS), C.work, name=tag, env=par(C, tag, P), simulate=simulate, depth=P["depth"] + 1, seed=vf.SEED * 100 + seed, workers=4)
        C.model(R); o = R.out
        if not o: raise vf.CheckError("no behaviours " + tag)
        if cap and len(o) > cap: o = random.Random(vf.SEED * 3 + seed).sample(o, cap)
        return o
    small = dict(machs=1, states=2, arrs=1, hows=1, inits=0, starts=[0], maxes=[100], obs=[[], [0]], vals=1)
    sets = []
    for l in range(4):
        sets.append(("life%d" % l, dict(small, use=[l + 1], depth=5, acts="new drop alloc clone prop read write scribble".split()), None, (1500, 20000)[th]))
    nm = len(misuse)
    sets += [("sim-all", {}, (400, 4000)[th], None), ("sim-misuse", dict(acts="new alloc prop misuse".split(), depth=60, machs=2), (150, 1500)[th], None),
             ("sim-objs", dict(acts="new drop reconf alloc clone prop set read scribble write".split(), depth=40), (300, 3000)[th], None),
             ("sim-other", dict(acts="new alloc prop other query clone".split(), depth=30), (150, 3000)[th], None)]
    plans = []
    for k, (tag, kw, sim, cap) in enumerate(sets):
        o = gen(tag, simulate=sim, seed=k, cap=cap, **kw)
        parts = 4 if sim else 1
        plans += [(tag + str(i), o[i::parts]) for i in range(parts)]
    # every misuse on every kind of machine and state, by construction
    def direct(l):
        v0 = dict(mach=[dict(on=True, lat=l, sel=[1] * lats[l - 1]["n"])], st=[dict(on=False)], arr=[])
        v1 = dict(v0, st=[dict(on=True, kind=lats[l - 1]["kind"], t=[dict(f="alloc", lat=l, k=0)])])
        h = [dict(op="new", m=1, l=l, how=1, ok=True, view=v0), dict(op="alloc", s=1, m=1, k=0, ok=True, view=v1)]
        return [h + [dict(op="misuse", k=k + 1, m=1, s=1, ok=False, view=v1)] * 2 for k in range(nm)]
    for l in range(1, 5): plans.append(("mis%d" % l, direct(l)))
    def job(sub, tag, o):
        p = Play(sub, env, deff)
        for k in range(0, len(o), 25):
            if not p.play(o[k:k + 25]): break
        p.close()
        sub.sample(dict(tag=tag, behaviour=[a["op"] for a in o[0]]))
    jobs = [(tag, lambda sub, tag=tag, o=o: job(sub, tag, o)) for tag, o in plans]
    # conversions
    R = vf.tlc("PyConv", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Export\nINVARIANT OwnHides\n", C.work, name="conv", env=par(C, "conv", dict(wide=1 if th else 0)), workers=4)
    C.model(R)
    conv = R.out
    def cjob(sub, part):
        d = Py(env, "conv", C.work, deff)
        jobs = [dict(g=c["g"] or {}, o=c["o"] or {}, x=c["x"], how=c["how"], seed=sub.rng.randrange(10 ** 6)) for c in part]
        try: R = d.batch(jobs)
        except vf.Crash as ex:
            sub.violation("crash", "interpreter died: %s converting %s" % (ex, jobs[len(ex.done)]), jobs[len(ex.done)]); return
        for c, j, r in zip(part, jobs, R):
            sub.traces()
            if r.get("bad"): sub.violation("conv", "%s: %s" % (j, r["bad"]), j)
            elif r["ok"] != c["ok"]: sub.violation("conv", "%s: %s instead of %s" % (j, r, "success" if c["ok"] else "an exception"), j)
        d.close()
    for k in range(6): jobs.append(("conv%d" % k, lambda sub, k=k: cjob(sub, conv[k::6])))
    vf.parallel(C, jobs[::-1], 8)
    C.assumptions += ["descriptions of objects are evaluated by the same library in a process that only makes correct calls"]

if __name__ == "__main__":
    vf.main("C19", c19)
