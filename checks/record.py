"""C17: recording of states into HDF5 files -- behaviours of spec/H5Rec.tla replayed with real writers; the files are
read back with the plain HDF5 library."""
import os, sys, json, random, struct, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mach

ALL = ["open", "openbad", "close", "drop", "append", "attr", "evolve"]
CFG = "SPECIFICATION Spec\nINVARIANT OneWriter\nINVARIANT Alive\nINVARIANT OneKind\n"
KINDS = ["", "MomentMatrix", "Vector", "TransferMatrix"]
LATT = {"MomentMatrix": [dict(name="d", type="drift", L=0.25), dict(name="q", type="quadrupole", L=0.25, B2=3.0), dict(name="s", type="solenoid", L=0.25, B=2.0)],
        "Vector": [dict(name="d", type="drift", L=0.5), dict(name="q", type="quadrupole", L=0.25, K=0.5)],
        "TransferMatrix": [dict(name="d", type="drift", L=0.5), dict(name="q", type="quadrupole", L=0.25, K=0.5)]}
ATTR = ["", "sim_type", "note"]
def aval(v): return ["", "MomentMatrix", "a text that is longer than sixteen characters", "x", ""][v]

def beamconf(kind, n, rng):
    if kind == "MomentMatrix": return mach.beam(rng.choice([0.5e6, 0.62e6, 1.1e6]), [30 + rng.randrange(9) for _ in range(n)], [float(rng.randrange(1, 999)) for _ in range(n)], sh=rng.randrange(4))
    if kind == "Vector": return dict(initial=[rng.random() for _ in range(6)])
    return dict(initial=[rng.random() for _ in range(36)])
def isnan(h): return h[1:3] == "ff" and h[0] in "7f" and (h[3] > "0" or h[3:] != "0" * 13) and h[3] >= "0" and (int(h, 16) & 0x7ff0000000000000) == 0x7ff0000000000000 and (int(h, 16) & 0xfffffffffffff) != 0
def block(v, dims, sub):
    "entries of the leading sub-block of an array stored in row-major order"
    if list(dims) == list(sub): return v
    out = []
    for ix in itertools.product(*[range(k) for k in sub]):
        o = 0
        for i, d in zip(ix, dims): o = o * d + i
        out.append(v[o])
    return out
def compare(data, rows, lo=0, hi=None):
    "data: what the file holds (rows lo..hi only); rows: the exported arrays of every recorded state; None or a description"
    if not rows: return "data sets %s in a group without rows" % sorted(data) if any(d["dim"][0] for d in data.values()) else None
    names = set(rows[0])
    if set(data) != names: return "data sets %s instead of %s" % (sorted(data), sorted(names))
    hi = len(rows) if hi is None else min(hi, len(rows))
    for n in sorted(names):
        d = data[n]
        dims = [len(rows)] + [max(r[n]["dim"][k] for r in rows) for k in range(len(rows[0][n]["dim"]))]
        if d["dim"] != dims: return "%s has shape %s instead of %s" % (n, d["dim"], dims)
        if d["t"] != rows[0][n]["t"]: return "%s has another number type" % n
        size = 1
        for k in dims[1:]: size *= k
        for i in range(lo, hi):
            got = block(d["v"][(i - lo) * size:(i - lo + 1) * size], dims[1:], rows[i][n]["dim"])
            if got != rows[i][n]["v"] and [("nan" if isnan(x) else x) for x in got] != [("nan" if isnan(x) else x) for x in rows[i][n]["v"]]:
                return "row %d of %s differs from the state recorded" % (i, n)
    return None

class Play:
    def __init__(self, C, exe, tag, kinds):
        self.C, self.tag, self.kinds = C, tag, kinds
        self.rng = random.Random(vf.SEED * 41 + sum(map(ord, tag)))
        os.makedirs(C.work.path(tag), exist_ok=True)
        self.base = C.work.path(tag)
        self.drv = vf.Driver(exe, env={"VF_SCRATCH": self.base, "HDF5_USE_FILE_LOCKING": "FALSE"}, cwd=self.base, timeout=600)
        self.n = 0
    def play(self, h):
        rng, C = self.rng, self.C
        self.n += 1
        d = "b%d" % self.n; os.makedirs(os.path.join(self.base, d))
        cmds, judge = [], []
        def cmd(j=None, **c): cmds.append(c); judge.append(j); return len(cmds) - 1
        cmd(op="reset"); cmd(op="h5_reset"); cmd(op="h5_quiet")
        for k in ("MomentMatrix", "Vector", "TransferMatrix"): cmd(op="m_new", m=k, conf={"sim_type": k, "elements": {"c": LATT[k]}})
        val = {}                       # value number -> index of the answer holding its arrays
        cur = {}
        def evolve(s, b):
            kind = KINDS[self.kinds[s - 1]]; n = b["n"]; sl = "s%d" % s
            how = rng.choice(["alloc", "prop", "set", "assign"]) if cur.get(s) == n else rng.choice(["alloc", "assign"]) if s in cur else "alloc"
            if how == "alloc": cmd(op="s_alloc", m=kind, s=sl, conf=beamconf(kind, n, rng))
            elif how == "assign": cmd(op="s_alloc", m=kind, s="tmp", conf=beamconf(kind, n, rng)); cmd(op="s_assign", s=sl, **{"from": "tmp"})
            elif how == "prop": cmd(op="prop", m=kind, s=sl, start=rng.randrange(2), max=rng.choice([1, 2, 3]))
            cmd(op="s_set", s=sl, name="pos", idx=[], val=b["v"] + 0.5)
            if rng.random() < .3: cmd(op="s_set", s=sl, name="next_elem", idx=[], val=rng.choice([7, (1 << 31) + 3, (1 << 32) + 5, (1 << 52) + 1]))
            if kind == "MomentMatrix": cmd(op="s_set", s=sl, name=rng.choice(["moment1", "transmat"]), idx=[rng.randrange(7), rng.randrange(7), rng.randrange(n)], val=rng.random())
            else: cmd(op="s_set", s=sl, name="state", idx=[rng.randrange(6)] * (1 if kind == "Vector" else 2), val=rng.random())
            cur[s] = n
            val[b["v"]] = cmd(op="s_get", s=sl, full=True)
        for s in range(1, len(self.kinds) + 1): evolve(s, dict(v=s, n=1))
        names = rng.choice([["", "g", "h", "g/h"], ["", "run1", "a b", "run1/x"]])
        path = {f: rng.choice(["%s/f%d.h5" % (d, f), "%s/%s/f%d.h5" % (self.base, d, f), "%s/f%d" % (d, f), "./%s/f%d.h5" % (d, f)]) for f in range(1, 4)}
        junk = "%s/junk" % d; jd = "%s/dir" % d
        os.makedirs(os.path.join(self.base, jd)); open(os.path.join(self.base, junk), "w").write("not HDF5")
        live = set()
        def look(f, g, x, where):
            "the content of one group must be the predicted one"
            def j(r, R):
                if r["ok"] != x["on"]:
                    return "group %s of file %d %s (%s)" % (names[g] or "/", f, "is missing" if x["on"] else "should not be there", r.get("msg"))
                if not x["on"]: return None
                e = compare(r["data"], [R[val[b["v"]]]["arr"] for b in x["rows"]])
                if e: return "%s: group %s of file %d: %s" % (where, names[g] or "/", f, e)
                att = {ATTR[int(a)]: aval(v) for a, v in (x["attr"].items() if isinstance(x["attr"], dict) else ((i + 1, v) for i, v in enumerate(x["attr"])))}
                if r["attrs"] != att: return "attributes %s instead of %s" % (r["attrs"], att)
            i = cmd(j, op="h5_read", file=path[f], group=names[g])
            return i
        def touched(disk, f, where):
            for g, x in self.groups(disk[f - 1]): look(f, g, x, where)
        wst = {}
        for a in h:
            op = a["op"]; w = "w%d" % a["w"] if "w" in a else None
            def ok(r, R, a=a):
                if r.get("ok") != a["ok"]: return "%s %s (%s)" % (a["op"], "refused" if a["ok"] else "accepted", r.get("msg"))
            if op == "evolve": evolve(a["s"], a["beam"][a["s"] - 1]); continue
            if op in ("open", "openbad", "close", "attr", "append") and w not in live and not (op == "open" and rng.random() < .5):
                cmd(op="h5_new", w=w); live.add(w)
            if op == "open":
                spec = path[a["f"]] + ("/" + names[a["g"]] if a["g"] else "")
                if w in live: cmd(ok, op="h5_open", w=w, spec=spec)
                else:
                    cmd(ok, op="h5_new", w=w, spec=spec)
                    if a["ok"]: live.add(w)
                    else: cmd(op="h5_new", w=w); live.add(w)     # no writer came into being
                wst[w] = a["f"]
                touched(a["disk"], a["f"], "after opening")
            elif op == "openbad": cmd(ok, op="h5_open", w=w, spec=[junk, jd][a["k"] - 1])
            elif op == "close":
                cmd(ok, op="h5_close", w=w)
                if w in wst: touched(a["disk"], wst[w], "after closing")
            elif op == "drop":
                cmd(ok, op="h5_del", w=w); live.discard(w)
                if w in wst: touched(a["disk"], wst[w], "after dropping the writer")
            elif op == "append":
                cmd(ok, op="h5_append", w=w, s="s%d" % a["s"])
                if w in wst and rng.random() < .5: touched(a["disk"], wst[w], "after recording")
            elif op == "attr":
                cmd(ok, op="h5_attr", w=w, name=ATTR[a["a"]], val=aval(a["v"]))
        cmd(op="h5_reset")
        last = h[-1]["disk"]
        for f, ds in enumerate(last):
            touched(last, f + 1, "at the end")
            for g, x in self.groups(ds):
                if x["on"] and x["rows"]:
                    i = cmd(op="h5_read", file=path[f + 1], group=names[g])
                    for n in rng.sample(["pos", "next_elem"], 1):
                        def jl(r, R, i=i, n=n):
                            D = R[i]["data"][n]
                            if not r.get("ok") or r["v"] != D["v"] or r["dim"] != (D["dim"] + [1])[:2]: return "H5Loader gives %s for data set %s" % (str(r)[:200], n)
                        cmd(jl, op="h5_load", spec=path[f + 1] + ("/" + names[g] if g else ""), dset=n)
        rp = dict(behaviour=[{k: v for k, v in a.items() if k not in ("disk", "beam")} for a in h])
        try:
            R = self.drv.batch(cmds)
        except vf.Crash as e:
            C.violation("crash", "%s; calls %s" % (e, rp["behaviour"]), dict(rp, commands=cmds)); return False
        for i, (j, r) in enumerate(zip(judge, R)):
            if not j and r.get("ok") is False and cmds[i]["op"] in ("m_new", "s_alloc", "s_set", "prop", "s_assign", "h5_new"): raise vf.CheckError("driver: %s %s" % (cmds[i], r))
            e = j and j(r, R)
            if e:
                C.violation("record:" + e.split(":")[0][:40], "%s; calls %s" % (e, rp["behaviour"]), dict(rp, commands=cmds, step=i)); break
        if open(os.path.join(self.base, junk)).read() != "not HDF5": C.violation("junk", "a file that is not HDF5 was changed", rp)
        import shutil; shutil.rmtree(os.path.join(self.base, d))
        C.traces()
        return len(C.viol) < 5
    @staticmethod
    def groups(ds):
        "TLC writes a function over 0..3 as an object"
        return sorted((int(k), v) for k, v in ds.items())
    def close(self): self.drv.close()

def long(C, exe, rows, kind, shapes):
    "many rows: a behaviour of the specification with one writer that only records"
    rng = random.Random(vf.SEED * 7 + rows)
    base = C.work.path("long%d%s" % (rows, kind)); os.makedirs(base)
    drv = vf.Driver(exe, env={"VF_SCRATCH": base, "HDF5_USE_FILE_LOCKING": "FALSE"}, cwd=base, timeout=600)
    cmds = [dict(op="reset"), dict(op="h5_quiet"), dict(op="m_new", m="m", conf={"sim_type": kind, "elements": {"c": LATT[kind]}}), dict(op="h5_new", w="w", spec="l.h5/g")]
    at = []
    for k in range(rows):
        n = shapes[k * len(shapes) // rows]
        if k == 0 or n != shapes[(k - 1) * len(shapes) // rows] or rng.random() < .05: cmds.append(dict(op="s_alloc", m="m", s="s", conf=beamconf(kind, n, rng)))
        else: cmds.append(dict(op="prop", m="m", s="s", start=0, max=2))
        cmds.append(dict(op="s_set", s="s", name="pos", idx=[], val=k + 0.25))
        at.append(len(cmds)); cmds.append(dict(op="s_get", s="s", full=True))
        cmds.append(dict(op="h5_append", w="w", s="s"))
    cmds.append(dict(op="h5_del", w="w"))
    R = drv.batch(cmds)
    for c, r in zip(cmds, R):
        if r.get("ok") is False:
            C.violation("long", "row refused: %s %s" % (c, r), dict(rows=rows, kind=kind)); return
    arr = [R[i]["arr"] for i in at]
    wins = [(a, min(a + 64, rows)) for a in range(0, rows, 64)]
    for (lo, hi), r in zip(wins, drv.batch([dict(op="h5_read", file="l.h5", group="g", rows=[lo, hi]) for lo, hi in wins])):
        e = compare(r["data"], arr, lo, hi) if r["ok"] else r["msg"]
        if e: C.violation("long", "%d rows of %s: %s" % (rows, kind, e), dict(rows=rows, kind=kind)); break
    drv.close(); C.traces()
    os.unlink(os.path.join(base, "l.h5"))

def par(C, tag, P):
    p = C.work.path("p-%s.json" % tag); open(p, "w").write(json.dumps(P)); return {"MPARAM": p}

def c17(C):
    exe = vf.build(("driver",))["driver"]
    th = C.thorough
    def gen(tag, P, simulate=None, seed=1, cap=None):
        R = vf.tlc("H5Rec", CFG + "INVARIANT Export\n%sCHECK_DEADLOCK FALSE\n" % ("" if simulate else "PROPERTY Stable\n"), C.work, name=tag, env=par(C, tag, P), simulate=simulate, depth=P["depth"] + 1, seed=vf.SEED * 100 + seed, workers=4)
        C.model(R)
        o = R.out
        if not o: raise vf.CheckError("no behaviours " + tag)
        if cap and len(o) > cap: o = random.Random(vf.SEED * 3 + seed).sample(o, cap)
        return o
    one = dict(files=1, writers=1, states=1, attrs=1)
    big = dict(files=2, writers=2, states=3, groups=3, attrs=3, depth=18)
    plans = []
    for tag, P, sim, cap in [
            ("ex-group", dict(one, groups=1, kind=[1], shapes=[2], depth=5, acts=["open", "close", "append", "evolve", "drop"]), None, (700, 8000)),
            ("ex-shape", dict(one, groups=0, kind=[1], shapes=[4], depth=6, acts=["open", "append", "evolve"]), None, (300, 4000)),
            ("ex-bad", dict(one, groups=3, kind=[2], shapes=[1], depth=4, acts=["open", "openbad", "append", "attr", "drop"]), None, (600, 6000)),
            ("sim-mom", dict(big, kind=[1, 1, 1], shapes=[3, 5, 1], acts=ALL), (700, 6000), (220, 2500)),
            ("sim-mix", dict(big, kind=[1, 2, 3], shapes=[4, 1, 1], acts=ALL), (700, 6000), (220, 2500)),
            ("sim-rec", dict(big, writers=1, files=1, states=2, kind=[1, 1], shapes=[5, 5], depth=30, acts=["open", "append", "evolve"]), (300, 2000), (80, 800))]:
        o = gen(tag, P, simulate=sim and sim[th], seed=len(plans), cap=cap[th])
        n = 2 if not th else 4
        for k in range(n): plans.append((tag + str(k), P["kind"], o[k::n]))
    def job(sub, tag, kinds, o):
        p = Play(sub, exe, tag, kinds)
        for h in o:
            if not p.play(h): break
        p.close()
        sub.sample(dict(tag=tag, behaviour=[a["op"] for a in o[0]]))
    jobs = [(tag, lambda sub, tag=tag, k=k, o=o: job(sub, tag, k, o)) for tag, k, o in plans]
    jobs += [("long", lambda sub: long(sub, exe, 1100 if not th else 5000, "MomentMatrix", [2, 3, 1])),
             ("longv", lambda sub: long(sub, exe, 2100 if not th else 9000, "Vector", [1])), ("longm", lambda sub: long(sub, exe, 1030, "TransferMatrix", [1]))]
    vf.parallel(C, jobs[::-1], 8)
    C.assumptions += ["a file is open in one writer at a time, and one kind of state is recorded per group",
                      "the entries of a row beyond the number of charge states it was recorded with are padding"]

if __name__ == "__main__":
    vf.main("C17", c17)
