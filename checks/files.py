"""C16: data files and what is remembered of them -- behaviours of spec/FileCache.tla replayed with real files."""
import os, sys, json, random, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mach

CFG = """SPECIFICATION Spec
INVARIANT Fresh
INVARIANT MemSeen
INVARIANT NoBadMem
"""
def stamps(rng):
    "modification times: later, earlier, a second apart, a time zone apart, equal in their low bits"
    t0 = 1400000000; d = [0, 1, -1, 2, 59, 60, 3600, -3600, 7200, 86400, -86400, 1 << 16, -(1 << 16), 1 << 24, 100000000, -100000000, 1 << 30, 1 << 32, -1400000000]
    return [None] + [t0 + x for x in rng.sample(d, 4)]
ALL = ["put", "spoil", "remove", "clear", "fetch"]

def hx(x): return "%016x" % struct.unpack(">Q", struct.pack(">d", float(x)))[0]
def table(rows, cols=()): return dict(rows=[[hx(v) for v in r] for r in rows], cols={n: k for k, n in enumerate(cols)})

# text of a table file with the table it denotes
TABLES = [("1 2\n3 4\n", table([[1, 2], [3, 4]])), ("1 2\n3 5\n", table([[1, 2], [3, 5]])),
          ("%a  b\tc\n 1.5 -2e3\t7 \n\n\t\n4 5 6\n", table([[1.5, -2000, 7], [4, 5, 6]], "abc")), ("", table([])),
          ("% x y\r\n1 2\r\n\r\n3 4\r\n", table([[1, 2], [3, 4]], "xy")), ("0.25", table([[0.25]]))]
BADTAB = ["1 2\n3 x\n", "1 2\n3\n", "1 2\n3 -\n", "1 2\n3 4e\n", None, "1 2 3\n4 5\n", "1,2\n3,4\n", "1 2\n1 2 3\n"]

class Tables:
    "callers of the table cache"
    name, clear, how = "table", True, ["fetch"]
    contents, bads = len(TABLES), len(BADTAB)
    def __init__(self, C, exe, rng): self.rng = rng
    def path(self, d, f): return "%s/%s" % (d, ["", "A/t.txt", "B/t.txt", "A/u.txt"][f])
    def dirs(self, d): return ["%s/A" % d, "%s/B" % d]
    def pick(self, n): return self.rng.sample(range(self.contents), n)
    def text(self, k): return TABLES[k][0]
    def bad(self, k): return BADTAB[k]
    def fetch(self, cmd, d, u, f, how, ok, k):
        def j(r, R):
            if r["ok"] != ok: return "request %s (%s)" % ("refused" if ok else "answered", r.get("msg"))
            if ok and r["tab"] != TABLES[k][1]: return "content differs from the file: %s instead of %s" % (r["tab"], TABLES[k][1])
        cmd(j, op="tab_fetch", u="u%d" % u, path=self.path(d, f))
    def still(self, cmd, u, k):
        cmd(lambda r, R: None if r.get("tab") == TABLES[k][1] else "content handed out earlier changed", op="tab_get", u="u%d" % u)
    def clearop(self, cmd): cmd(op="tab_clear")
    def start(self, cmd, d):
        cmd(op="tab_reset")
        for x in self.dirs(d): cmd(op="f_mkdir", path=x)

class Elements:
    "elements that need a data file: read when built or reconfigured"
    clear = False
    how = ["fetch", "refetch", "reload"]
    keep = True
    def __init__(self, C, exe, rng):
        self.rng = rng
        self.texts, self.bads_, self.odds = self.files()
        self.contents, self.bads = len(self.texts), len(self.bads_)
        # reference result of every content: a process that has seen nothing else
        self.ref = []
        inits = mach.MOM_INITS
        self.beams = [inits[0][0], inits[1][0]]
        for k, t in enumerate(self.texts):
            d = C.work.path("ref%s%d" % (self.name, k))
            drv = vf.Driver(exe, env={"VF_SCRATCH": C.work.dir})
            cmds = []
            self.start(lambda j=None, **c: cmds.append(c), d)
            cmds.append(dict(op="f_put", path=self.path(d, 1), text=t, t=1000000000))
            n0 = len(cmds)
            for b in range(len(self.beams)):
                self.build(lambda j=None, **c: cmds.append(c), "R%d" % b, d, 1)
                self.run(lambda j=None, **c: cmds.append(c), "R%d" % b, b)
            res = drv.batch(cmds)
            drv.close()
            fps = [r["fp"] for c, r in zip(cmds, res) if c["op"] == "s_get"]
            if not all(r.get("ok", True) for r in res[n0:]): raise vf.CheckError("reference run failed: %s" % [r for r in res[n0:] if not r.get("ok", True)])
            self.ref.append(fps)
        seen = {}
        for k, f in enumerate(self.ref):
            if tuple(f) in seen: raise vf.CheckError("%s: contents %d and %d cannot be told apart" % (self.name, k, seen[tuple(f)]))
            seen[tuple(f)] = k
    def pick(self, n): return self.rng.sample(range(self.contents), n)
    def text(self, k): return self.texts[k]
    def bad(self, k): return self.bads_[k]
    def dirs(self, d): return ["%s/A" % d, "%s/B" % d]
    def path(self, d, f): return "%s/%s" % (d, ["", "A/" + self.base, "B/" + self.base, "A/alt_" + self.base][f])
    def build(self, cmd, m, d, f):
        return cmd(None, op="m_new", m=m, conf={"sim_type": "MomentMatrix", "elements": {"c": [dict(name="d", type="drift", L=0.25), self.conf(d, f)]}})
    def run(self, cmd, m, b):
        cmd(None, op="s_alloc", m=m, s="s", conf=self.beams[b])
        p = cmd(None, op="prop", m=m, s="s", start=0, max=10)
        g = cmd(None, op="s_get", s="s")
        return p, g
    def fetch(self, cmd, d, u, f, how, ok, k):
        b = self.rng.randrange(2)
        if how == "fetch":
            n = self.build(cmd, "u%d" % u if ok else "X", d, f)
        else:
            n = cmd(None, op="reconf", m="u%d" % u, i=1, conf=self.conf(d, f))
            if not ok and self.lazy: return         # reported when it is used
        m = "u%d" % u if ok or how != "fetch" else "X"
        def j(r, R):
            good = R[n].get("ok")
            if ok and not good: return "refused: %s" % R[n].get("msg")
            if not ok:
                if good and not self.lazy: return "accepted"
                if good and R[p]["ok"]: return "accepted, and propagated"
                return None
            if not R[p]["ok"]: return "propagation refused: %s" % R[p].get("msg")
            if r["fp"] != self.ref[k][b]: return "result is not that of the file's content (%s)" % (
                "content %d" % [x[b] for x in self.ref].index(r["fp"]) if r["fp"] in [x[b] for x in self.ref] else "none of the contents")
        if not ok and not self.lazy:
            cmd(lambda r, R: "accepted" if R[n].get("ok") else None, op="noop"); return
        cmd(None, op="s_alloc", m=m, s="s", conf=self.beams[b])
        p = cmd(None, op="prop", m=m, s="s", start=0, max=10)
        cmd(j, op="s_get", s="s")
        if not ok: cmd(op="m_del", m="X")
    def still(self, cmd, u, k):
        if not self.keep: return
        b = self.rng.randrange(2)
        p, g = self.run(cmd, "u%d" % u, b)
        cmd(lambda r, R: None if R[g]["fp"] == self.ref[k][b] else "data of an element built earlier changed", op="noop")
    def start(self, cmd, d):
        cmd(op="reset")
        for x in self.dirs(d): cmd(op="f_mkdir", path=x)

class Generic(Elements):
    name, base, lazy = "generic", "cav.lat", False
    def files(self):
        g = open(mach.DATA + "/thinlenlon_41.lat").read(); h = open(mach.DATA + "/thinlenlon_85.lat").read()
        return [g, g.replace("V0 = 0.10926", "V0 = 0.11926", 1), h, g.replace("L = 68.09", "L = 67.09", 1)], [g[:len(g) // 2], "", "not a lattice", None], [g.replace("Ez", "Ex"), g.replace("V0", "V1")]
    def conf(self, d, f):
        p = self.path(d, f)
        return dict(mach.rfc("Generic", 80.5e6, -35.0, 0.6, datafile=os.path.basename(p)), name="c", type="rfcavity", Eng_Data_Dir=os.path.dirname(p))
class Curve(Elements):
    name, base, lazy, keep, how = "curve", "curve.lat", True, False, ["fetch", "reload"]
    def files(self):
        return ["curve0=[1,2,3];\ncurve1=[3,2,1];\n", "curve0=[1,2,3];\ncurve1=[3,2,0.5];\n", "curve0=[1];\ncurve1=[2];\n"], ["curve0=[1,2,3", "curve0=[1,2]; curve0=[1];", None], ["curve0=[1,2];\n", "curve0=[1,2]; curve1=[1];", "curve0=1; curve1=2;"]
    def conf(self, d, f):
        p = self.path(d, f)
        return dict(name="q", type="quadrupole", L=0.25, ncurve=2.0, CurveFile=os.path.basename(p), Eng_Data_Dir=os.path.dirname(p), scl_fac0=1.0, scl_fac1=0.5)
class Qwr(Elements):
    "the built-in cavity types: three files per directory, one of them changing"
    lazy, how = False, ["fetch", "refetch", "reload"]
    def path(self, d, f): return "%s/%s/%s" % (d, ["", "A", "B"][f], self.base)
    def start(self, cmd, d):
        cmd(op="reset")
        for x in self.dirs(d):
            cmd(op="f_mkdir", path=x + "/Multipole41")
            for n in ("axisData_41.txt", "Multipole41/CaviMlp_41.txt", "Multipole41/thinlenlon_41.txt"):
                if n != self.base: cmd(op="f_copy", **{"from": mach.DATA + "/" + n, "path": x + "/" + n})
    def conf(self, d, f):
        return dict(mach.rfc("0.041QWR", 80.5e6, -35.0, 0.6, forcettfcalc=1.0), name="c", type="rfcavity", Eng_Data_Dir="%s/%s" % (d, ["", "A", "B"][f]))
def scaled(text, col, fac):
    out = []
    for l in text.splitlines():
        if l.startswith("%") or not l.strip(): out.append(l); continue
        w = l.split(); w[col] = repr(float(w[col]) * fac); out.append("\t".join(w))
    return "\n".join(out) + "\n"
class QwrAxis(Qwr):
    name, base = "axis", "axisData_41.txt"
    def files(self):
        g = open(mach.DATA + "/" + self.base).read()
        return [g, scaled(g, 1, 1.0625), scaled(g, 1, 0.9375)], [g[:200] + "\nx y\n", g[:2000] + " 1\n", None], ["1\n2\n", ""]
class QwrMlp(Qwr):
    name, base = "mlp", "Multipole41/CaviMlp_41.txt"
    def files(self):
        g = open(mach.DATA + "/" + self.base).read()
        return [g, scaled(g, 2, 1.0625), scaled(g, 1, 1.0625)], [g[:300] + "\nx y\n", g + "1 2\n", None], ["1 2\n2 3\n", ""]
class QwrThin(Qwr):
    name, base = "thin", "Multipole41/thinlenlon_41.txt"
    def files(self):
        g = open(mach.DATA + "/" + self.base).read()
        return [g, g.replace("0.109223016415648", "0.119223016415648", 1), g.replace("68.091276910351496", "67.091276910351496", 1)], ["drift x y z\n", None], None

def replay(C, exe, U, behs, tag, budget):
    rng = U.rng
    drv = vf.Driver(exe, env={"VF_SCRATCH": C.work.dir}, timeout=600)
    for n, h in enumerate(behs):
        d = C.work.path("%s-%s-%d" % (U.name, tag, n))
        cmds, judge = [], []
        def cmd(j=None, **c): cmds.append(c); judge.append(j); return len(cmds) - 1
        U.start(cmd, d)
        ct = U.pick(budget[0])
        bd = [rng.randrange(U.bads) for _ in range(8)]
        STAMP = stamps(rng)
        for a in h:
            op = a["op"]
            if op == "put":
                cmd(op="f_put", path=U.path(d, a["f"]), text=U.text(ct[a["c"] - 1]), t=STAMP[a["t"]], how=rng.choice(["rewrite", "replace"]))
            elif op == "spoil":
                t = U.bad(bd[a["k"]])
                if t is None: cmd(op="f_rm", path=U.path(d, a["f"])); cmd(op="f_put", path=U.path(d, a["f"]), dir=True, t=STAMP[a["t"]])
                else: cmd(op="f_put", path=U.path(d, a["f"]), text=t, t=STAMP[a["t"]], how=rng.choice(["rewrite", "replace"]))
            elif op == "odd":
                cmd(op="f_put", path=U.path(d, a["f"]), text=rng.choice(U.odds or [x for x in U.bads_ if x]), t=STAMP[a["t"]], how=rng.choice(["rewrite", "replace"]))
            elif op == "remove": cmd(op="f_rm", path=U.path(d, a["f"]))
            elif op == "clear": U.clearop(cmd)
            else:
                U.fetch(cmd, d, a["u"], a["f"], op, a["ok"], ct[a["c"] - 1] if a["ok"] else None)
                for u, c in enumerate(a["held"]):
                    if c and not (a["ok"] and u + 1 == a["u"]): U.still(cmd, u + 1, ct[c - 1])
        for f in range(1, budget[1] + 1): cmd(op="f_rm", path=U.path(d, f))
        try:
            R = drv.batch(cmds)
        except vf.Crash as e:
            C.violation("crash", "%s: %s" % (U.name, e), dict(user=U.name, behaviour=h, commands=cmds)); return
        for i, (j, r) in enumerate(zip(judge, R)):
            if r.get("exc") and not j and cmds[i]["op"].startswith("f_"): raise vf.CheckError("driver: %s" % r)
            e = j and j(r, R)
            if e:
                C.violation("stale:" + U.name, "%s: %s; calls %s" % (U.name, e, [{k: v for k, v in a.items() if k != "held"} for a in h]), dict(user=U.name, behaviour=h, step=i, commands=[c for c in cmds]))
                if len(C.viol) > 5: return
                break
        C.traces()
    drv.close()
    C.sample(dict(user=U.name, behaviour=[a["op"] for a in behs[len(behs) // 2]]))

def c16(C):
    exe = vf.build(("driver",))["driver"]
    th = C.thorough
    jobs = []
    # the model alone: unbounded histories, all reachable states
    R = vf.tlc("FileCache", CFG + "VIEW View\nPROPERTY Frozen\nCHECK_DEADLOCK FALSE\n", C.work, name="model", workers=4,
               env=par(C, "model", dict(files=2, contents=2, bads=1, times=3, users=2 if th else 1, depth=1000000, acts=ALL + ["odd", "refetch", "reload"])))
    C.model(R)
    def gen(tag, P, simulate=None, seed=1, cap=None):
        R = vf.tlc("FileCache", CFG + "INVARIANT Export\nCHECK_DEADLOCK FALSE\n", C.work, name=tag, env=par(C, tag, P), simulate=simulate, depth=P["depth"] + 1, seed=vf.SEED * 100 + seed, workers=4)
        C.model(R)
        o = R.out
        if not o: raise vf.CheckError("no behaviours " + tag)
        if cap and len(o) > cap: o = random.Random(vf.SEED * 3 + seed).sample(o, cap)
        return o
    small = dict(files=1, contents=2, bads=1, times=2, users=1, depth=5 if not th else 6)
    big = dict(files=2, contents=3, bads=2, times=4, users=2, depth=14)
    ex_t = gen("exh-table", dict(small, acts=ALL), cap=6000 if not th else 60000)
    ex_e = gen("exh-elem", dict(small, acts=["put", "spoil", "odd", "remove", "fetch", "reload"]), seed=2)
    sim_t = gen("sim-table", dict(big, files=3, acts=ALL), simulate=3000 if not th else 20000, seed=3)
    sim_e = gen("sim-elem", dict(big, acts=["put", "odd", "spoil", "remove", "fetch", "refetch", "reload"]), simulate=2000 if not th else 8000, seed=4)
    sim_c = gen("sim-curve", dict(big, acts=["put", "spoil", "odd", "remove", "fetch", "reload"]), simulate=2000 if not th else 8000, seed=5)
    r = random.Random(vf.SEED + 5)
    for tag, cls, behs, bud in [("x", Tables, ex_t, (2, 1)), ("s", Tables, sim_t, (3, 3))] + \
            [("x", k, r.sample(ex_e, min(len(ex_e), (300, 1500)[th])), (2, 1)) for k in (Generic, QwrAxis, QwrMlp, QwrThin)] + \
            [("s", k, sim_e[:(150, 1200)[th]], (3, 2)) for k in (Generic, QwrAxis, QwrMlp, QwrThin)] + \
            [("x", Curve, [h for h in r.sample(ex_e, min(len(ex_e), (400, 2000)[th]))], (2, 1)), ("s", Curve, sim_c[:(400, 3000)[th]], (3, 2))]:
        def job(sub, cls=cls, behs=behs, bud=bud, tag=tag):
            replay(sub, exe, cls(sub, exe, random.Random(vf.SEED * 17 + len(tag))), behs, tag, bud)
        jobs.append((cls.__name__ + tag, job))
    jobs.append(("reader", lambda sub: reader(sub, exe)))
    vf.parallel(C, jobs, 7)
    C.assumptions += ["modification times are whole seconds and differ from the one at the last read whenever the content does",
                      "elements take their data when they are built or reconfigured"]

def par(C, tag, P):
    p = C.work.path("p-%s.json" % tag); open(p, "w").write(json.dumps(P)); return {"MPARAM": p}

def reader(C, exe):
    "the table reader: what a text denotes, line by line"
    rng = C.rng
    drv = vf.Driver(exe)
    nums = ["1", "-2.5", "3e2", "+4", ".5", "7.", "1e-3", "0"]
    bad = ["x", "-", "1e", "1,", "--1", "1x", "e5", ".", "#", "#1", "1#", "!", "//", "1%", "1;", "\"1\""]
    cmds, want = [], []
    for n in range(3000 if not C.thorough else 40000):
        w = rng.randrange(1, 4); lines, rows, cols, ok = [], [], {}, True
        for k in range(rng.randrange(0, 6)):
            z = rng.random()
            if z < .15: lines.append(rng.choice(["", " ", "\t ", "  \t"]))
            elif z < .25:
                names = rng.sample(["a", "b", "Pos", "x_1", "Ez"], rng.randrange(0, 4))
                lines.append("%" + rng.choice(["", " ", "\t"]) + rng.choice([" ", "\t", "  "]).join(names)); cols = {c: i for i, c in enumerate(names)}
            else:
                r = [rng.choice(nums) for _ in range(w if rng.random() < .97 else w + rng.choice([1, -1]))]
                if rng.random() < .06 and r: r[rng.randrange(len(r))] = rng.choice(bad)
                if not r: continue
                try: v = [float(x) for x in r]
                except ValueError: v = None
                if v is None or (rows and len(rows[-1]) != len(v)): ok = False
                if ok: rows.append(v)
                lines.append(rng.choice(["", " ", "\t"]) + rng.choice([" ", "\t", "  "]).join(r) + rng.choice(["", "", " ", "\t"]))
        nl = rng.choice(["\n", "\n", "\r\n"])
        text = nl.join(lines) + rng.choice(["", nl])
        cmds.append(dict(op="tab_read", text=text)); want.append((ok, dict(rows=[[hx(v) for v in r] for r in rows], cols=cols)))
    for c, r, (ok, t) in zip(cmds, drv.batch(cmds), want):
        if r["ok"] != ok or (ok and r["tab"] != t):
            C.violation("reader", "text %r: %s instead of %s" % (c["text"], r, t if ok else "an error"), c)
            if len(C.viol) > 5: break
    C.traces(len(cmds)); drv.close()

if __name__ == "__main__":
    vf.main("C16", c16)
