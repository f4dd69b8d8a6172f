"""C15: the registry of types -- call sequences of spec/RegistryMC.tla replayed, and concurrent histories of
the real code explained by spec/RegistryLin.tla."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

CFG = """SPECIFICATION Spec
PROPERTY RefusedHasNoEffect
PROPERTY Exclusive
INVARIANT OncePerEpoch
INVARIANT ElementsNeedSim
INVARIANT Export
CHECK_DEADLOCK FALSE
"""
LIN = """SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
"""
REFUSED = dict(ok=False, v=0, els=[])
PLAIN = dict(ok=True, v=0, els=[])
def result(r):
    if r == "ok": return PLAIN
    if isinstance(r, dict): return dict(ok=True, v=r["s"], els=r["e"])
    return REFUSED
def action(call):
    c = dict(call)
    if c["a"] == "build":
        es = [dict(e=e) for e in c.pop("es")]
        boom = c.pop("boom")
        if boom:
            # the constructor of some element fails: of an element that exists, or the last of the list
            if es: es[boom % len(es)]["boom"] = 1
            else: es = [dict(e="none", boom=1)]
        c["els"] = es
    return c

def sequences(C, exe, hists, what):
    drv = vf.Driver(exe, timeout=120)
    for k in range(0, len(hists), 400):
        part = hists[k:k + 400]
        cmds = []
        for h in part:
            cmds += [dict(op="c_reset"), dict(op="c_seq", acts=[action(s["call"]) for s in h])]
        try: res = drv.batch(cmds)
        except vf.Crash as e:
            C.violation("crash", "%s: %s" % (what, e), cmds[max(0, len(e.done) - 1):len(e.done) + 1]); drv = vf.Driver(exe, timeout=120); continue
        for i, h in enumerate(part):
            r = res[2 * i + 1]
            got = [result(e["r"]) for e in r.get("ev", []) if "a" in e]
            want = [s["r"] for s in h]
            if got != want:
                j = next((x for x in range(min(len(got), len(want))) if got[x] != want[x]), min(len(got), len(want)))
                C.violation("sequence", "%s: call %d %s gives %s instead of %s, after %s" % (what, j, json.dumps(h[j]["call"]) if j < len(h) else "", got[j:j + 1], want[j:j + 1], json.dumps([s["call"] for s in h[:j]])), dict(history=h, got=got))
                if len(C.viol) > 5: return
            if r.get("misused"): C.violation("sequence", "an exception left a call of another kind", h)
        C.traces(len(part))
    drv.close()
    if hists: C.sample(dict(sequence=[s["call"] for s in hists[-1]]))

def spec(C, exe, name, par, simulate=None, keep=None):
    par = dict(dict(sims=["a", "b"], els=["x", "y"], machs=2, vers=2, boom=1, use=1), **par)
    pf = C.work.path(name + ".json"); json.dump(par, open(pf, "w"))
    R = vf.tlc("RegistryMC", CFG, C.work, name, env={"MPARAM": pf}, simulate=simulate, depth=par["depth"] + 3, seed=vf.SEED * 17 + len(name), workers=2 if simulate else 4)
    C.model(R)
    H = R.out
    if keep and len(H) > keep: H = C.rng.sample(H, keep)
    sequences(C, exe, H, name)

class Programs:
    "random programs of threads"
    def __init__(self, rng, sims, els, big=False):
        self.rng, self.sims, self.els, self.big, self.id = rng, sims, els, big, 0
    def one(self, depth, kept):
        r = self.rng; self.id += 1
        x = r.random()
        n, e, v = r.choice(self.sims), r.choice(self.els), r.randint(1, 3)
        if x < 0.22: a = dict(a="regS", n=n, v=v)
        elif x < 0.50: a = dict(a="regE", n=n, e=e, v=v)
        elif x < 0.60: a = dict(a="clear")
        elif x < 0.66 and kept: a = dict(a="use", m=r.choice(sorted(kept)))
        else:
            a = dict(a="build", n=n, els=[])
            for _ in range(r.choice([0, 1, 1, 2, 2])):
                el = dict(e=r.choice(self.els))
                if depth < 2 and r.random() < 0.35: el["do"] = [self.one(depth + 1, ()) for _ in range(r.choice([1, 1, 2]))]
                if r.random() < 0.06: el["boom"] = 1
                if r.random() < 0.1: el["later"] = [self.one(2, ())]
                a["els"].append(el)
            if depth == 0 and r.random() < 0.6: a["m"] = r.randint(1, 2); kept.add(a["m"])
        a["id"] = self.id
        return a
    def program(self, n):
        kept = set()
        return [self.one(0, kept) for _ in range(n)]

def flatten(ev, C, what):
    "events of a run as operations for RegistryLin; what machines kept is compared with what they were built with"
    ops, kept = [], {}
    for e in sorted((e for e in ev if "a" in e), key=lambda e: e["res"]):
        a = e["a"]; r = result(e["r"])
        if a["a"] in ("linear", "moment"): a = dict(a="regS", n=dict(linear="Vector", moment="MomentMatrix")[a["a"]], v=0)
        if a["a"] == "use":
            w = kept.get((e["th"], a["m"]))
            if w is None: continue           # its machine could not be built: nothing to use
            if e["r"] == "none" or r != w: C.violation("machine", "%s: a kept machine gives %s, it was built as %s" % (what, e["r"], w), ev)
            continue
        if a["a"] not in ("regS", "regE", "clear", "build"): continue
        if a["a"] == "build" and r["ok"] and "m" in a: kept[e["th"], a["m"]] = r
        ops.append(dict(a=a["a"], n=a.get("n", ""), e=a.get("e", ""), v=a.get("v", 0), es=[x["e"] for x in a.get("els", [])],
                        boom=int(any(x.get("boom") for x in a.get("els", []))), inv=e["inv"], res=e["res"], r=r))
    return ops

def explain(C, name, sims, els, runs):
    "runs: (ops, replay)"
    pf = C.work.path(name + "-h.json")
    json.dump(dict(sims=sims, els=els, hist=[o for o, _ in runs]), open(pf, "w"))
    R = vf.tlc("RegistryLin", LIN, C.work, name, env={"MPARAM": pf}, workers=2)
    C.model(R)
    good = set(R.out)
    for k, (o, rep) in enumerate(runs, 1):
        if k not in good:
            C.violation("interleaving", "%s: no order of the calls explains the results: %s" % (name, json.dumps(sorted(o, key=lambda x: x["inv"]))), dict(ops=o, **rep))
            if len(C.viol) > 5: return
    C.traces(len(runs))
    if runs: C.sample(dict(history=runs[-1][0][:6]))

def threads(C, exe, name, nthreads, nops, rounds, sims=("a", "b"), els=("x", "y"), perturb=(0, 8, 30, 80)):
    sims, els = list(sims), list(els)
    drv = vf.Driver(exe, timeout=90)
    rng = C.rng
    done = 0
    while done < rounds and len(C.viol) < 5:
        runs = []; cmds = []
        for _ in range(min(100, rounds - done)):
            P = Programs(rng, sims, els)
            T = [P.program(rng.randint(max(1, nops - 2), nops)) for _ in range(nthreads)]
            pre = [dict(a="regS", n=rng.choice(sims), v=1), dict(a="regE", n=sims[0], e=els[0], v=1)] if rng.random() < 0.5 else []
            cmds.append((dict(op="c_reset"), dict(op="c_seq", acts=pre), dict(op="c_run", threads=T, perturb=rng.choice(perturb), seed=rng.randrange(1 << 30))))
        done += len(cmds)
        try: res = drv.batch([c for t in cmds for c in t])
        except vf.Crash as e:
            k = len(e.done) // 3
            C.violation("stuck", "%s: %s in %s" % (name, e, json.dumps(cmds[min(k, len(cmds) - 1)][2])), cmds[min(k, len(cmds) - 1)]); return
        for i, t in enumerate(cmds):
            s, r = res[3 * i + 1], res[3 * i + 2]
            if r.get("misused"): C.violation("machine", "%s: an exception left a call" % name, t)
            ev = s["ev"] + [dict(e, inv=e["inv"], res=e["res"]) if "a" in e else e for e in r["ev"]]
            runs.append((flatten(ev, C, name), dict(program=t[2])))
            C.count("concurrent_operations", len(runs[-1][0]))
        explain(C, "%s-%d" % (name, done), sims, els, runs)
    drv.close()

def contention(C, exe, name, rounds):
    "every thread does the same registrations: one of them wins each; the library's own types are as good as any"
    drv = vf.Driver(exe, timeout=90)
    rng = C.rng; runs = []; cmds = []
    sims, els = ["a", "Vector", "MomentMatrix"], ["x", "y"]
    for k in range(rounds):
        n = rng.randint(2, 6)
        kind = k % 3
        if kind == 0: prog = [dict(a="regS", n="a", v=1), dict(a="regE", n="a", e="x", v=2), dict(a="regE", n="a", e="y", v=3), dict(a="build", n="a", els=[dict(e="x"), dict(e="y")])]
        elif kind == 1: prog = [dict(a="linear"), dict(a="moment")]
        else: prog = [dict(a="regS", n="a", v=1), dict(a="regE", n="a", e="x", v=2), dict(a="build", n="a", els=[dict(e="x", do=[dict(a="clear"), dict(a="regS", n="a", v=3)])]), dict(a="build", n="a", els=[])]
        T = []
        for _ in range(n):
            p = [dict(a) for a in prog]
            for a in p:
                if "v" in a: a["v"] = rng.randint(1, 3)
            if rng.random() < 0.3: rng.shuffle(p)
            T.append(p)
        cmds.append((dict(op="c_reset"), dict(op="c_run", threads=T, perturb=rng.choice([0, 8, 30, 80]), seed=rng.randrange(1 << 30))))
    try: res = drv.batch([c for t in cmds for c in t])
    except vf.Crash as e:
        k = min(len(e.done) // 2, len(cmds) - 1)
        C.violation("stuck", "%s: %s in %s" % (name, e, json.dumps(cmds[k][1])), cmds[k]); return
    for i, t in enumerate(cmds):
        runs.append((flatten(res[2 * i + 1]["ev"], C, name), dict(program=t[1])))
    drv.close()
    explain(C, name, sims, els, runs)

def c15(C):
    B = vf.build(("driver",))
    exe = B["driver"]; T = C.thorough
    C.assumptions += ["threads: histories recorded under random scheduling perturbation (at allocations and lock operations), not every schedule",
                      "a constructor of an element that calls back into the registry is unordered against the construction it belongs to"]
    jobs = [("all3", lambda C: spec(C, exe, "all3", dict(depth=3), keep=None if T else 30000)),
            ("one5", lambda C: spec(C, exe, "one5", dict(sims=["a"], els=["x"], machs=1, vers=2, depth=5 if T else 4))),
            ("long", lambda C: spec(C, exe, "long", dict(sims=["a", "b"], els=["x", "y", "z"], machs=3, vers=3, depth=14), simulate=12000 if T else 1500)),
            ("longer", lambda C: spec(C, exe, "longer", dict(sims=["a"], els=["x", "y"], machs=2, vers=3, depth=30), simulate=5000 if T else 500)),
            ("contend", lambda C: contention(C, exe, "contend", 6000 if T else 900))]
    for i, (nt, no, sims) in enumerate([(2, 6, "ab"), (3, 5, "a"), (4, 4, "ab"), (6, 3, "a")]):
        for rep in range(3 if T else 1):
            jobs.append(("threads%d.%d" % (nt, rep), lambda C, nt=nt, no=no, sims=sims, rep=rep: threads(C, exe, "threads%d-%d" % (nt, rep), nt, no, 3000 if T else 500, sims=list(sims))))
    vf.parallel(C, jobs, 5)

if __name__ == "__main__":
    vf.main("C15", c15)
