"""C01-C05, C11-C14: propagation, observation, history, settings, failures, undo, values, charge states, lookup
-- behaviours of spec/Machine.tla replayed on real machines."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mach
from mach import Lattice, Campaign, MOMV, LINV, STRIP, BROKEN, UNIT, BIG

PAS = [t for t in MOMV if MOMV[t][0] == "pas"]
PAS0 = [t for t in MOMV if MOMV[t][0] == "pas0"]

def pick(rng, typ, n=None):
    v = (MOMV if typ in MOMV else LINV)[typ][1]
    return v[rng.randrange(len(v))]

def one(typ, alts, name="E", sim="mom", inits=None):
    lat = Lattice(sim, inits)
    lat.add([lat.elem(typ, p, name=name) for p in alts])
    return lat

def mixed(rng, kinds, sim="mom", inits=None, alts=1, V=None):
    """a lattice with positions of the given kinds, concretised at random (same abstract parameters for the same kinds)"""
    lat = Lattice(sim, inits)
    V = V or (MOMV if sim == "mom" else LINV)
    for n, k in enumerate(kinds):
        if k == "src":
            lat.add([lat.source((n + j) % len(lat.inits), name="S%d" % n) for j in range(alts)])
        elif k == "str":
            lat.add([lat.elem("stripper", STRIP[(n + j) % len(STRIP)], name="st%d" % n) for j in range(alts)])
        elif k == "brk":
            t, p = BROKEN[rng.randrange(len(BROKEN))]
            lat.add([lat.elem(t, p, name="x%d" % n, kind="brk")])
        else:
            t = rng.choice([t for t in V if V[t][0] == k])
            vs = V[t][1]
            sel = [vs[rng.randrange(len(vs))] for j in range(alts)]
            lat.add([lat.elem(t, p, name="%s_%d" % (t, n)) for p in sel])
    return lat

def subset(inits, ks): return [inits[k] for k in ks]

def exact(C, sims, acts, kinds=("src", "mat", "mat", "mark", "mat"), depth=2, slots=1, starts=None, maxs=None, alts=1, limit=None, m=2, rpos=(), reps=1, simulate=None, inits=4):
    "lattices of integer matrices: the specification computes the very beam, with its averages"
    camps = []
    for sim in sims:
        for rep in range(reps * (4 if C.thorough else 1)):
            lat = mach.exact_lattice(C.rng, sim, kinds, alts=alts, m=m, inits=inits)
            n = len(kinds)
            P = lat.param(slots=slots, acts=list(acts), starts=list(starts or range(0, n + 1)), maxs=list(maxs or [1, 2, n, -1, -2, -n]), depth=depth, start=list(range(1, slots + 1)), rpos=list(rpos))
            camps.append(Campaign("exact-%s%d" % (sim, rep), P, [("exact-" + sim, lat, {})], limit=limit if not C.thorough else None, simulate=simulate))
    return camps

# ------------------------------------------------------------------ C01
def c01(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    # every start and every count, alone and twice in a row, on short lattices of each simulation type
    for n in (1, 3) if not th else (1, 2, 3, 4):
        kinds = (["src"] + ["pas"] * 6)[:n] if n != 1 else ["pas"]
        starts = list(range(-1, n + 2))
        maxs = sorted(set(list(range(-n - 1, n + 2)) + [BIG, -BIG, -2 * BIG]))
        lats = []
        for sim in ("mom", "vec", "mat"):
            lats.append((sim, mixed(rng, kinds, sim), {}))
        for tag, lat, o in lats:
            P = lat.param(slots=1, acts=["prop"], starts=starts, maxs=maxs, depth=2 if n > 1 else 3, ninits=1)
            camps.append(Campaign("range%d%s" % (n, "m" if tag == "mom" else "l"), P, [(tag, lat, o)]))
    # the empty machine
    for sim in ("mom", "vec"):
        lat = Lattice(sim)
        camps.append(Campaign("empty" + sim, lat.param(slots=1, acts=["prop"], starts=[-1, 0, 1, 5], maxs=[-1, 0, 1, BIG, -2 * BIG], depth=2, ninits=1), [(sim, lat, {})]))
    # all segmentations of long lattices: consecutive pieces, both directions
    for k in range(3 if not th else 12):
        n = (10, 25, 60)[k % 3]
        sim = ("mom", "mat", "mom", "vec")[k % 4]
        kinds = ["src"] + [rng.choice(["pas", "pas", "pas0", "fwd", "cav", "pas"]) if sim == "mom" else rng.choice(["pas"]) for _ in range(n - 1)]
        if k % 2: kinds = kinds[1:] + ["pas"]
        lat = mixed(rng, kinds, sim)
        P = lat.param(slots=2, acts=["alloc", "prop", "assign"], starts=sorted(set([0, 1, 2, n // 3, n // 2, n - 2, n - 1, n, n + 3])),
                      maxs=[0, 1, 2, 3, n // 4, n // 3, n // 2, n - 1, n, n + 1, BIG, -1, -2, -n // 2, -BIG], depth=8, start=[1, 2], ninits=3)
        camps.append(Campaign("long%d" % k, P, [("%s-%d" % (sim, n), lat, {})], simulate=60 if not th else 400))
    camps += exact(C, ("mom", "vec", "mat"), ["prop"], limit=1500)
    mach.run_campaigns(C, exe, camps)
    segments(C, exe)

def segments(C, exe):
    "cut one propagation at arbitrary places: the pieces applied at the reported next element give the same state"
    rng = C.rng
    def job(sub, k):
        drv = vf.Driver(exe)
        r = random.Random(vf.SEED * 77 + k)
        sim = ("mom", "vec", "mat")[k % 3]
        n = r.choice([5, 12, 30])
        kinds = ["src"] + [r.choice(["pas", "pas0", "fwd", "cav"]) if sim == "mom" else "pas" for _ in range(n - 1)]
        back = k % 2 == 1
        if back: kinds = [r.choice(["pas", "pas0"]) if sim == "mom" else "pas" for _ in range(n)]
        lat = mixed(r, kinds, sim)
        for rep in range(20 if not sub.thorough else 120):
            cmds = [dict(op="reset"), dict(op="m_new", m="A", conf=lat.conf()), dict(op="m_new", m="B", conf=lat.conf()),
                    dict(op="s_alloc", m="A", s="a", conf=lat.inits[0][0]), dict(op="s_alloc", m="B", s="b", conf=lat.inits[0][0])]
            a = r.randrange(n); total = r.randrange(1, n + 2)
            cuts = []; left = total
            while left > 0:
                c = r.randrange(1, left + 1); cuts.append(c); left -= c
            sg = -1 if back else 1
            cmds.append(dict(op="prop", m="A", s="a", start=a, max=sg * total))
            pos = a
            for c in cuts:
                cmds.append(dict(op="prop", m="B", s="b", start=pos if 0 <= pos else "max", max=sg * c))
                pos = pos + sg * c
                if not 0 <= pos < n: pos = n if sg > 0 else -1
            R = drv.batch(cmds)
            x = R[5]["st"]; y = R[-1]["st"]
            if not R[5]["ok"] or any(not q["ok"] for q in R[6:]) or x["fp"] != y["fp"] or x["next"] != y["next"]:
                sub.violation("segments", "one run over %d..%+d and pieces %s give %s and %s" % (a, sg * total, cuts, x, y), dict(cmds=cmds)); break
            sub.traces(1); sub.count("segmentations")
        drv.close()
    def long(sub, sim, n):
        "a lattice longer than any small counter: the visited range and what is left of it (Propagated of the specification, in closed form)"
        drv = vf.Driver(exe)
        lat = Lattice(sim)
        for i in range(n): lat.add([lat.elem("drift", dict(L=UNIT), name="d")])
        ini = lat.inits[0][0]
        R = drv.batch([dict(op="reset"), dict(op="m_new", m="A", conf=lat.conf())])
        if not R[1]["ok"]: return sub.violation("long", "a lattice of %d elements is refused: %s" % (n, R[1]), dict(n=n, sim=sim))
        for start, mx in ((0, n), (0, 2147483647), (0, 40000), (1, 65536), (n - 3, 10), (5, n), (n - 1, -n), (n - 1, -2147483648), (n - 1, -40000), (66000, -65537), (0, 256), (0, 32768), (70000, 1)):
            if start >= n or abs(mx) == 0: cnt = 0
            else: cnt = min(mx, n - start) if mx > 0 else min(-mx, start + 1)
            nxt = start + cnt if mx > 0 else start - cnt
            pos = (cnt if mx > 0 or sim != "mom" else -cnt) * UNIT
            marks = sorted(set(x for x in (start, start + (cnt - 1 if mx > 0 else 1 - cnt), nxt) if 0 <= x < n)) if start < n else []
            cmds = [dict(op="s_alloc", m="A", s="a", conf=ini)] + [dict(op="observe", m="A", i=i, on=True) for i in marks] + \
                   [dict(op="prop", m="A", s="a", start=start, max=mx)] + [dict(op="observe", m="A", i=i, on=False) for i in marks]
            r = drv.batch(cmds)[1 + len(marks)]
            lo, hi = (start, start + cnt - 1) if mx > 0 else (start - cnt + 1, start)
            want = [i for i in (marks if mx > 0 else marks[::-1]) if lo <= i <= hi]
            if not r["ok"] or r["st"]["next"] != nxt or r["st"]["pos"] != pos or [o["i"] for o in r["obs"]] != want:
                sub.violation("long", "%d elements, start %d, max %d: next %s, position %s, observed %s; expected %s, %s, %s" % (n, start, mx, r.get("st", {}).get("next"), r.get("st", {}).get("pos"), [o["i"] for o in r.get("obs", [])], nxt, pos, want), dict(cmds=cmds, n=n, sim=sim)); break
            sub.traces(1); sub.count("long_ranges")
        drv.close()
    vf.parallel(C, [("seg%d" % k, lambda s, k=k: job(s, k)) for k in range(6 if not C.thorough else 24)] +
                   [("long-" + sim, lambda s, sim=sim: long(s, sim, 70001)) for sim in ("vec", "mom")])

# ------------------------------------------------------------------ C02
def c02(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    for sim in ("mom", "vec", "mat"):
        kinds = ["src", "pas", "cav", "pas0"] if sim == "mom" else ["src", "pas", "pas", "pas"]
        lat = mixed(rng, kinds, sim)
        n = len(kinds)
        P = lat.param(slots=1, acts=["prop", "observe", "trace"], starts=[0, 1, n - 1], maxs=[BIG, 2, -2], opos=list(range(1, n + 1)), depth=4 if not th else 5, ninits=1)
        camps.append(Campaign("obs" + ("m" if sim == "mom" else "l"), P, [(sim, lat, {})], limit=3000 if not th else 30000))
    # refused passes in between, settings changed while observed
    lat = mixed(rng, ["pas", "fwd", "pas", "brk"], alts=1)
    P = lat.param(slots=1, acts=["prop", "observe", "alloc"], starts=[0, 2, 3], maxs=[BIG, -BIG, 1, -1], opos=[1, 2, 3, 4], obs0=[1, 2, 3, 4], depth=3, ninits=2)
    camps.append(Campaign("obsfail", P, [("refusing", lat, {})]))
    lat = mixed(rng, ["pas", "pas0", "cav"], alts=2)
    lat.pos[0][1]["conf"]["name"] = lat.pos[0][1]["name"] = "renamed"
    P = lat.param(slots=1, acts=["prop", "observe", "reconf", "trace"], starts=[0], maxs=[BIG], opos=[1, 2, 3], rpos=[1, 2, 3], obs0=[1, 3], depth=4, ninits=1)
    camps.append(Campaign("obsreconf", P, [("reconf", lat, dict(elems=True))], limit=1500 if not th else 20000))
    for k in range(2 if not th else 10):
        n = 20
        kinds = ["src"] + [rng.choice(["pas", "pas0", "fwd", "cav", "str"]) for _ in range(n - 1)]
        lat = mixed(rng, kinds)
        P = lat.param(slots=2, acts=["prop", "observe", "trace", "clone", "assign"], starts=[0, 3, n // 2, n - 1], maxs=[BIG, 1, 5, -1, -3], opos=list(range(1, n + 1)),
                      obs0=rng.sample(range(1, n + 1), n // 2), depth=12, start=[1, 2], ninits=3)
        camps.append(Campaign("obslong%d" % k, P, [("mom-%d" % n, lat, {})], simulate=60 if not th else 300))
    mach.run_campaigns(C, exe, camps)

# ------------------------------------------------------------------ C03
FIELDS = [("IonEk", 0.53e6), ("IonEs", 931.0e6), ("IonZ", 0.15), ("IonQ", 77.0), ("phis", 0.2), ("SampleFreq", 161e6)]
def c03(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    I = subset(mach.MOM_INITS, [0, 1, 2])
    I2 = subset(mach.MOM_INITS, [0, 3, 4])        # different numbers of charge states
    I3 = subset(mach.MOM_INITS, [0, 5, 6])        # same energies: order and weights of charge states
    def auto(tag, typ, alts, inits, depth=4, limit=None, maxs=(1, -1)):
        lat = one(typ, alts, inits=inits)
        P = lat.param(slots=1, acts=["alloc", "prop", "reconf"], starts=[0], maxs=list(maxs), depth=depth, rpos=[1] if len(alts) > 1 else [], ninits=3)
        camps.append(Campaign("auto-%s" % tag, P, [(typ, lat, dict(nocache=True))], limit=limit))
    for t in MOMV:
        v = MOMV[t][1]
        b = rng.sample(v, min(2, len(v)))
        D = 4
        lim = 700 if not th else None
        auto(t, t, b[:1] + [v[-1]] if th else [v[0]], I, depth=4, limit=lim)
        auto(t + "q", t, [v[-1]], I2, depth=4, limit=lim)
        auto(t + "w", t, [rng.choice(v)], I3, depth=4, limit=lim)
        if th: auto(t + "5", t, [rng.choice(v)], I, depth=6, limit=20000)
    for cv in (MOMV["rfcavity"][1][-2], MOMV["rfcavity"][1][6], MOMV["rfcavity"][1][-1]) if not th else MOMV["rfcavity"][1]:
        auto("cav", "rfcavity", [cv], I, depth=5, limit=900 if not th else None)
    auto("str", "stripper", [STRIP[0]], I, depth=4, limit=600)
    # two beams alike in all but one number, one after the other: nothing of the first may be taken for the second
    onew = lambda h: sum(s["a"]["op"] == "write" for s in h) == 1 and h[-1]["a"]["op"] == "prop"
    for t in list(MOMV) + ["stripper"]:
        for k, ix in ((0, 0), (4, 4), (0, 1)) if th else ((0, 0), (4, 4)):
            v = MOMV[t][1] if t in MOMV else STRIP
            lat = one(t, [rng.choice(v) if th or t == "rfcavity" else v[0]], inits=[mach.MOM_INITS[k]])
            lat.wconc = [(f, [ix], x) for f, x in FIELDS] + [("ref_" + f, [], x) for f, x in FIELDS]
            lat.writes = [dict(en=w[0] not in ("phis", "ref_phis")) for w in lat.wconc]
            P = lat.param(slots=2, acts=["prop", "write"], starts=[0], maxs=[1, -1] if th and t != "rfcavity" else [1], depth=3, start=[1, 1], ninits=1)
            camps.append(Campaign("field-%s%d" % (t, k), P, [(t, lat, dict(nocache=True))], keep=onew))
    # whole lattices: wandering forward and backward with different beams, settings and writes
    for k in range(6 if not th else 30):
        n = 6 + 2 * (k % 3)
        kinds = [rng.choice(["pas", "pas", "pas0", "cav", "cav", "fwd"]) for _ in range(n)]
        if k % 3 == 0: kinds[0] = "src"
        if k % 3 == 1: kinds[n // 2] = "str"
        lat = mixed(rng, kinds, alts=2)
        lat.writes = [dict(en=False), dict(en=True), dict(en=False)]
        lat.wconc = [("moment0", [0, 0], 0.125), ("IonEk", [0], 0.51e6), ("phis", [0], 0.2)]
        P = lat.param(slots=2, acts=["alloc", "prop", "prop2", "clone", "assign", "write", "reconf"], starts=[0, n // 2, n - 1], maxs=[1, 2, 3, n, -1, -2, -3, -n],
                      depth=14, start=[1, 2], rpos=list(range(1, n + 1)), ninits=8)
        camps.append(Campaign("wander%d" % k, P, [("mom-%d" % n, lat, dict(nocache=True))], simulate=60 if not th else 400))
    mach.run_campaigns(C, exe, camps)

# ------------------------------------------------------------------ C04
def c04(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    def rec(tag, lat, n=None, depth=4, limit=None, opts=None, maxs=(1, -1), starts=(0,), rpos=(1,)):
        P = lat.param(slots=1, acts=["alloc", "prop", "reconf"], starts=list(starts), maxs=list(maxs), depth=depth, rpos=list(rpos), ninits=2)
        camps.append(Campaign("rec-" + tag, P, [(tag, lat, dict(elems=True, **(opts or {})))], limit=limit))
    for t in MOMV:
        v = list(MOMV[t][1])
        if t in PAS and t != "tmatrix": v = v + [dict(v[0], L=2 * UNIT)]
        # every setting once as the new one, after every use of the old one
        for k in range(0, len(v), 2):
            alts = [v[0]] + v[k + (1 if k == 0 else 0):k + 2]
            if k == 0: alts = v[:2]
            if k and not th:
                rec("%s%d" % (t, k), one(t, alts), depth=3, limit=60)
            else:
                rec("%s%d" % (t, k), one(t, alts), depth=4 if k == 0 or th else 3, limit=200 if not th else 3000)
    lat = Lattice("mom"); lat.add([lat.source(k, name="S") for k in (0, 1, 3, 4)]); lat.add([lat.elem("drift", dict(L=UNIT))])
    rec("source", lat, limit=400, maxs=(1, 2, -1), starts=(0, 1))
    lat = Lattice("mom"); lat.add([lat.elem("stripper", s, name="ST") for s in STRIP])
    rec("stripper", lat, limit=300)
    for sim in ("vec", "mat"):
        for t in LINV:
            v = LINV[t][1] + [dict(LINV[t][1][0], L=2 * UNIT)]
            rec("%s-%s" % (sim, t), one(t, v, sim=sim), depth=3, limit=150)
        lat = Lattice(sim); lat.add([lat.source(k) for k in (0, 1, 2)]); lat.add([lat.elem("drift", dict(L=UNIT))])
        rec("%s-source" % sim, lat, depth=4, limit=400, maxs=(1, 2), starts=(0, 1))
    # several elements, renamed ones, inside lattices in use
    for k in range(4 if not th else 20):
        n = 5
        kinds = [rng.choice(["pas", "pas", "pas0", "cav", "fwd"]) for _ in range(n)]
        if k % 2: kinds[0] = "src"
        lat = mixed(rng, kinds, alts=3)
        for i in range(n):
            if i % 2: lat.pos[i][2]["conf"]["name"] = lat.pos[i][2]["name"] = "renamed"
        P = lat.param(slots=2, acts=["alloc", "prop", "assign", "reconf", "observe"], starts=[0, 2, n - 1], maxs=[1, 3, n, -1, -n], depth=12, start=[1, 2],
                      rpos=list(range(1, n + 1)), opos=[1, 3], ninits=4)
        camps.append(Campaign("recwander%d" % k, P, [("mom", lat, dict(elems=True))], simulate=40 if not th else 300))
    camps += exact(C, ("mom", "vec", "mat"), ["prop", "reconf"], kinds=("src", "mat", "mat"), alts=3, depth=3, starts=[0, 1], maxs=[1, 3, -1], rpos=(1, 2, 3), limit=900)
    mach.run_campaigns(C, exe, camps)

# ------------------------------------------------------------------ C05
def badconfs():
    def b(f): return f
    def cur(lat, i, s): return dict(lat.pos[i][s]["conf"])
    def without(k): return lambda lat, i, s: (i, {a: v for a, v in cur(lat, i, s).items() if a != k})
    def withv(**kw): return lambda lat, i, s: (i, dict(cur(lat, i, s), **kw))
    other = lambda lat, i, s: (i, dict(cur(lat, i, s), type="marker" if lat.pos[i][s]["type"] != "marker" else "drift", L=UNIT))
    return [lambda lat, i, s: (len(lat.pos), cur(lat, i, s)), without("type"), without("name"), withv(type="nosuchtype"), other,
            withv(name="x", type=[1.0]), withv(name=3.0), withv(type=5.0), lambda lat, i, s: (10 ** 9, cur(lat, i, s)), lambda lat, i, s: (i, {})]
# per type: settings that cannot be built (others get a configuration without type)
TYPEBAD = dict(sbend=[dict(HdipoleFitMode="7"), dict(HdipoleFitMode=5.0)],
               rfcavity=[dict(cavtype="nosuch"), dict(cavtype="Generic", datafile="nosuch.lat"), dict(cavtype=3.0), dict(cavtype="0.041QWR", Eng_Data_Dir="/nonexistent"), dict(f="x"), dict(cavtype="Generic", datafile="curve_sample.lat")],
               source=[dict(NCharge=[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]), dict(IonChargeStates=[]), dict(moment00=[1.0]), dict(cstate=99.0)],
               generic=[dict(transfer=[1.0] * 99), dict(transfer="x"), dict(transfer=[0.0] * 37)])
def typebad(k):
    def f(lat, i, s):
        c = dict(lat.pos[i][s]["conf"])
        T = TYPEBAD.get(c["type"], []) if lat.sim == "mom" or c["type"] != "source" else [dict(initial=[1.0] * 99)]
        if c["type"] == "sbend" and lat.sim != "mom": T = []
        if T: c.update(T[k % len(T)])
        else: c.pop("type")
        return i, c
    return f
MOMBAD = [typebad(k) for k in range(6)]
BADALLOC = [dict(mach.MOM_INITS[0][0], NCharge=[1.0, 2.0, 3.0]), dict(mach.MOM_INITS[0][0], NCharge=[1.0]), dict(mach.MOM_INITS[0][0], cstate=7.0), dict(mach.MOM_INITS[0][0], moment00=[1.0, 2.0]),
            dict(mach.MOM_INITS[0][0], IonChargeStates=[]), {k: v for k, v in mach.MOM_INITS[0][0].items() if k != "initial1"}, dict(cstate=0.0),
            dict(mach.MOM_INITS[0][0], initial0=[1.0] * 48), {k: v for k, v in mach.MOM_INITS[0][0].items() if k != "NCharge"}, dict(mach.MOM_INITS[0][0], cstate=-1.0)]
def badbuild(lat):
    good = lat.conf()
    els = good["elements"]["c"]
    bad = lambda e: dict(good, elements={"c": els[:1] + [e] + els[1:]})
    return [dict(good, sim_type="NoSuch"), {"elements": good["elements"]}, {"sim_type": good["sim_type"]}, bad({"name": "q"}), bad({"type": "drift"}), bad({"name": "q", "type": "nosuch"}),
            bad({"name": 3.0, "type": "drift"}), dict(good, sim_type=3.0), dict(good, elements=[1.0]), bad({"name": "q", "type": 3.0})] + \
           ([bad({"name": "q", "type": "rfcavity"}), bad({"name": "q", "type": "sbend", "HdipoleFitMode": 5.0}), bad(dict(mach.el("q", "source", **BADALLOC[0])))] if lat.sim == "mom" else
            [bad({"name": "q", "type": "generic"}), bad({"name": "q", "type": "generic", "transfer": [1.0] * 99}), bad({"name": "q", "type": "source", "initial": [1.0] * 99})])
def c05(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    def add(tag, lat, depth, starts, maxs, limit, nbad=True, alloc=True, acts=None, slots=1, sim=None, rpos=None, opts=None):
        bc = badconfs() + MOMBAD
        ba = BADALLOC if lat.sim == "mom" else [{"initial": [0.0] * 99}]
        bb = badbuild(lat)
        P = lat.param(slots=slots, acts=acts or ["prop", "alloc", "reconfbad", "allocbad", "buildbad"], starts=starts, maxs=maxs, depth=depth, ninits=2, start=list(range(1, slots + 1)),
                      rpos=rpos or list(range(1, len(lat.pos) + 1)), nbadconf=len(bc), nbadalloc=len(ba), nbadbuild=len(bb))
        names = sorted(set(a["name"] for p in lat.pos for a in p) | {"x", "q", "zz"})
        types = sorted(set(a["type"] for p in lat.pos for a in p) | {"marker", "drift"})
        camps.append(Campaign("fail-" + tag, P, [(tag, lat, dict(elems=True, allslots=True, reclook=True, names=names, types=types, bad=dict(conf=bc, alloc=ba, build=bb), **(opts or {})))], limit=limit, simulate=sim))
    # passes that are refused: the next ones are judged as if nothing had happened
    for k, (t, p) in enumerate(BROKEN):
        lat = Lattice("mom")
        good = MOMV[t][1][0] if t in MOMV else STRIP[0]
        lat.add([lat.elem(t, p, name="B", kind="brk"), lat.elem(t, good, name="B")])
        lat.pos[0][0]["len"] = 1
        P = lat.param(slots=1, acts=["prop", "alloc", "reconf"], starts=[0], maxs=[1, -1], depth=4, ninits=2, rpos=[1])
        camps.append(Campaign("brk", P, [("%s%d" % (t, k), lat, dict(elems=True))], limit=300 if not th else None))
    for t in ("sextupole", "stripper", "rfcavity"):
        lat = Lattice("mom")
        lat.add([lat.elem("drift", dict(L=UNIT))])
        lat.add([lat.elem(t, STRIP[0] if t == "stripper" else MOMV[t][1][0])])
        P = lat.param(slots=1, acts=["prop", "alloc"], starts=[0, 1], maxs=[1, 2, -1, -2], depth=4, ninits=2)
        camps.append(Campaign("refuse-" + t, P, [(t, lat, {})], limit=700 if not th else None))
    # refused calls between passes
    lat = mixed(rng, ["pas", "cav", "pas0"])
    add("mom", lat, 6, [0, 2], [3, -3], None, sim=400 if not th else 6000)
    lat = mixed(rng, ["src", "cav"])
    add("cav", lat, 6, [0, 1], [2, -1], None, sim=300 if not th else 6000, rpos=[2])
    for t in list(MOMV) + ["stripper"]:
        v = MOMV[t][1] if t in MOMV else STRIP
        lat = one(t, [rng.choice(v)])
        add(t, lat, 6, [0], [1, -1], None, sim=60 if not th else 1000)
    for t in LINV:
        for sim in ("vec", "mat"):
            add(sim + t, one(t, [LINV[t][1][0]], sim=sim), 6, [0], [1], None, sim=30 if not th else 500)
    for sim in ("vec", "mat"):
        lat = mixed(rng, ["src", "pas", "pas"], sim)
        add(sim, lat, 6, [0, 1], [3, -1], None, sim=200 if not th else 4000)
    for k in range(4 if not th else 16):
        n = 6
        kinds = [rng.choice(["pas", "pas0", "cav", "fwd", "brk", "str"]) for _ in range(n)]
        lat = mixed(rng, kinds, alts=1)
        add("wander%d" % k, lat, 12, [0, 2, n - 1], [1, 2, n, -1, -n], None, slots=2, sim=40 if not th else 300,
            acts=["prop", "alloc", "assign", "clone", "reconfbad", "allocbad", "buildbad", "reconf"])
    mach.run_campaigns(C, exe, camps)

# ------------------------------------------------------------------ C11
def c11(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    TOL = 1e-9
    I = [mach.MOM_INITS[k] for k in (0, 4, 1)]
    inv = [t for t in MOMV if MOMV[t][0] in ("pas", "pas0")]
    for t in inv:
        for k, v in enumerate(MOMV[t][1]):
            lat = one(t, [v], inits=I[k % 2:k % 2 + 2])
            P = lat.param(slots=1, acts=["prop", "alloc"], starts=[0], maxs=[1, -1], depth=5 if not th else 7, ninits=2)
            camps.append(Campaign("inv", P, [("%s%d" % (t, k), lat, dict(undo=TOL))], limit=120 if not th else 4000))
    for k, v in enumerate(MOMV["rfcavity"][1]):
        if str(v.get("EmitGrowth", "0")) not in ("0", "0.0"): continue
        mis = any(a in v for a in ("dx", "dy", "pitch", "yaw", "roll"))
        lat = one("rfcavity", [v], inits=I[k % 2:k % 2 + 2])
        P = lat.param(slots=1, acts=["prop", "alloc"], starts=[0], maxs=[1, -1], depth=4 if not th else 6, ninits=2)
        camps.append(Campaign("cav", P, [("rfcavity%d" % k, lat, dict(undo=TOL, undokey="misaligned-cavity" if mis else None))], limit=120 if not th else 4000))
    # what cannot be undone refuses, whatever the beam and its settings
    I3 = [mach.MOM_INITS[k] for k in (3, 0, 4)]
    for t in ("sextupole", "stripper"):
        for k, v in enumerate(MOMV[t][1] if t in MOMV else STRIP):
            lat = one(t, [v], inits=I3)
            P = lat.param(slots=1, acts=["prop", "alloc"], starts=[0], maxs=[1, -1], depth=2 if not th else 3, ninits=3, start=[3])
            camps.append(Campaign("refuse", P, [("%s%d" % (t, k), lat, {})]))
    # ranges over several elements, refusing ones and sources among them; other runs in between
    def emit(p): return str(p["conf"].get("EmitGrowth", "0")) not in ("0", "0.0") or (p["kind"] == "cav" and any(a in p["conf"] for a in ("dx", "dy", "pitch", "yaw", "roll")))
    for k in range(16 if not th else 80):
        n = 3 + k % 3
        while True:
            kinds = [rng.choice(["pas", "pas", "pas0", "cav"]) for _ in range(n)]
            if k % 4 == 1: kinds[rng.randrange(n)] = "fwd"
            if k % 4 == 2: kinds[rng.randrange(n)] = "str"
            if k % 4 == 3: kinds[rng.randrange(n)] = "src"
            lat = mixed(rng, kinds, alts=2, inits=I + [mach.MOM_INITS[3]])
            if not any(emit(p) for q in lat.pos for p in q): break
        P = lat.param(slots=1, acts=["prop"], starts=sorted(set([0, 1, n - 1])), maxs=[1, 2, n, -1, -2, -n], depth=3, ninits=1, start=[1 + k % 4] if k % 2 else [1])
        P["inits"] = lat.param()["inits"]
        camps.append(Campaign("undorange%d" % k, P, [("mom", lat, dict(undo=TOL))], limit=300 if not th else 6000))
        P = lat.param(slots=2, acts=["prop", "prop2", "clone", "assign", "reconf"], starts=[0, n - 1], maxs=[1, n, -1, -n], depth=10, start=[1, 2], ninits=4, rpos=list(range(1, n + 1)))
        camps.append(Campaign("undowander%d" % k, P, [("mom", lat, dict(undo=TOL))], simulate=60 if not th else 400))
    camps += exact(C, ("mom",), ["prop"], kinds=("mat", "src", "mat", "mark", "mat"), depth=3, starts=[0, 2, 4], maxs=[2, 3, -1, -3], limit=1500, reps=2)
    mach.run_campaigns(C, exe, camps)

# ------------------------------------------------------------------ C12
def c12(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    W = dict(mom=[("moment0", [0, 0], 0.125), ("moment1", [1, 2, 0], 0.5), ("pos", [], 3.5), ("IonEk", [0], 0.55e6), ("ref_IonEk", [], 0.52e6), ("phis", [0], 0.3), ("moment0_env", [2], 9.0),
                  ("transmat", [0, 3, 0], 4.0), ("last_caviphi0", [], 12.0), ("ref_phis", [], 0.1), ("moment1_env", [1, 1], 2.0), ("moment0_rms", [1], 3.0), ("IonQ", [0], 77.0), ("IonZ", [0], 0.15)],
             vec=[("state", [0], 0.125), ("pos", [], 3.5)], mat=[("state", [0, 1], 0.125), ("pos", [], 3.5)])
    for sim in ("mom", "vec", "mat"):
        ws = [w for w in W[sim] if w[0] != "pos"]
        for k in range(0, len(ws), 3):
            kinds = ["pas", "cav"] if sim == "mom" else ["pas", "pas"]
            lat = mixed(rng, kinds, sim, inits=subset(mach.MOM_INITS, [0, 4]) if sim == "mom" else None)
            lat.wconc = ws[k:k + 3]
            lat.writes = [dict(en=w[0] in ("IonEk", "ref_IonEk", "IonQ", "IonZ")) for w in lat.wconc]
            P = lat.param(slots=2, acts=["alloc", "clone", "assign", "write", "prop"], starts=[0], maxs=[2, 1], depth=3 if not th else 4, ninits=2, start=[1, 2])
            camps.append(Campaign("val-%s%d" % (sim, k), P, [(sim, lat, dict(allslots=True))], limit=700 if not th else 20000))
    for k in range(3 if not th else 12):
        kinds = ["src", "pas", "str", "cav", "pas"] if k % 2 else ["pas", "cav", "pas0", "fwd"]
        lat = mixed(rng, kinds)
        lat.wconc = rng.sample([w for w in W["mom"] if w[0] not in ("pos", "IonQ", "IonZ")], 3)
        lat.writes = [dict(en=w[0] in ("IonEk", "ref_IonEk")) for w in lat.wconc]
        P = lat.param(slots=3, acts=["alloc", "clone", "assign", "write", "prop", "reconf"], starts=[0, 1], maxs=[1, 2, 5, -1], depth=12, ninits=8, start=[1, 5, 4], rpos=[2])
        camps.append(Campaign("valwander%d" % k, P, [("mom", lat, dict(allslots=True))], simulate=60 if not th else 400))
    camps += exact(C, ("mom", "vec", "mat"), ["alloc", "clone", "assign", "prop"], kinds=("mat", "src", "mat"), depth=3, slots=2, starts=[0, 2], maxs=[1, 3], limit=800)
    mach.run_campaigns(C, exe, camps)

# ------------------------------------------------------------------ C13
def c13(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    many = [(mach.beam(0.5e6 + 1e4 * n, list(range(30, 30 + n)), [float(3 + (7 * j) % 5) for j in range(n)], sh=n), "e%d" % n) for n in (1, 2, 3, 5, 8, 12)]
    many.append((mach.beam(0.55e6, [33, 34, 35], [0.0, 4.0, 7.0], sh=2), "ez"))      # a charge state nobody is in
    for k, kinds in enumerate([["src", "pas", "str", "pas"], ["src", "cav", "pas0"], ["pas", "str", "cav", "src"], ["str", "str", "pas"], ["src", "fwd", "pas"]]):
        lat = mixed(rng, kinds, inits=many, alts=2)
        n = len(kinds)
        P = lat.param(slots=2, acts=["alloc", "prop", "reconf", "assign"], starts=[0, 1], maxs=[BIG, 1, 2, -1], rpos=[1, 2], obs0=list(range(1, n + 1)), depth=4, ninits=6, start=[2, 4])
        camps.append(Campaign("chg%d" % k, P, [("mom", lat, dict(full=True))], simulate=300 if not th else 5000))
    for k in range(4 if not th else 16):
        n = 10
        kinds = ["src"] + [rng.choice(["pas", "pas0", "cav", "str", "fwd", "src"]) for _ in range(n - 1)]
        lat = mixed(rng, kinds, inits=many if k % 2 else None, alts=2)
        P = lat.param(slots=2, acts=["alloc", "prop", "clone", "assign", "reconf"], starts=[0, 3, n // 2], maxs=[BIG, 1, 4, -1, -2], rpos=list(range(1, n + 1)), obs0=list(range(1, n + 1)),
                      depth=8, ninits=6, start=[1, 2])
        camps.append(Campaign("chgw%d" % k, P, [("mom", lat, dict(full=True))], simulate=40 if not th else 200))
    camps += exact(C, ("mom",), ["alloc", "prop", "assign"], kinds=("mat", "src", "mat", "mat"), depth=3, slots=1, starts=[0, 2], maxs=[2, 4, -1], limit=1500, reps=2, alts=1, inits=6)
    # every variant of every element on beams of several charge states
    for t in list(MOMV) + ["stripper"]:
        for k, v in enumerate(MOMV[t][1] if t in MOMV else STRIP):
            if t == "stripper": mx, ini = [1], [many[3], many[0], many[6]]
            elif t in ("rfcavity", "sextupole"): mx, ini = [1], [many[1], many[3], many[6]]
            else: mx, ini = [1, -1], [many[1], many[3], many[6]]
            lat = one(t, [v], inits=ini)
            P = lat.param(slots=1, acts=["alloc", "prop"], starts=[0], maxs=mx, depth=2 if not th else 4, ninits=3, start=[1 + k % 3])
            camps.append(Campaign("var", P, [("%s%d" % (t, k), lat, dict(full=True))], limit=12 if not th else 400))
    mach.run_campaigns(C, exe, camps)
    beams(C, exe)

def beams(C, exe):
    "spec/Beam.tla: the beam every configuration denotes, allocated directly and through a source"
    rng = random.Random(vf.SEED * 5 + 1)
    I = mach.exact_inits(rng, "mom", 40)
    I = [c for c, e in I if len(c["NCharge"]) == 3][0]
    fl = lambda l: [float(x) for x in l]
    pv = [float(rng.randrange(-3, 4)) for _ in range(6)] + [1.0]
    P = dict(ics=[30, 31, 32], nch=[2, 5, 3], z=77, q=9, ek=500000, vec=[mach.ints(I["moment0%d" % k]) for k in range(3)], mat=[mach.rows(I["initial%d" % k], 7) for k in range(3)],
             pvec=mach.ints(pv), pmat=mach.rows(I["initial1"], 7))
    p = C.work.path("beam.json")
    with open(p, "w") as f: json.dump(P, f)
    R = vf.tlc("Beam", "SPECIFICATION Spec\nINVARIANT WellFormed\nCHECK_DEADLOCK FALSE\n", C.work, name="beam", workers=4, env=dict(MPARAM=p), timeout=600)
    C.model(R)
    out = R.out
    if not C.thorough: out = rng.sample(out, min(len(out), 6000))
    class FakeLat: sim = "mom"
    def conf(c):
        d = {"IonEs": 931.0e6, "IonEk": 500000.0}
        V, M = ("xx", "yy") if c["ren"] else ("moment0", "initial")
        if c["ren"]: d.update(vector_variable="xx", matrix_variable="yy")
        if c["ics"] >= 0: d["IonChargeStates"] = [z / 238.0 for z in P["ics"][:c["ics"]]]
        if c["nc"] >= 0: d["NCharge"] = fl(P["nch"][:c["nc"]])
        if c["cs"] >= 0: d["cstate"] = float(c["cs"])
        if c["z"]: d["IonZ"] = P["z"] / 238.0
        if c["q"]: d["IonQ"] = float(P["q"])
        if c["f"]: d["SampleFreq"] = 161e6
        for k in ("0", "1", "2", ""):
            v = fl(P["vec"][int(k)]) if k else pv
            m = fl(sum(P["mat"][int(k)], [])) if k else fl(sum(P["pmat"], []))
            if c["bad"] != "none" and (k == "" or int(k) == c["bk"]):
                if c["bad"] == "novec": v = None
                elif c["bad"] == "shortvec": v = v[:6]
                elif c["bad"] == "longvec": v = v + [0.0]
                elif c["bad"] == "nomat": m = None
                else: m = m[:48]
            if v is not None: d[V + k] = v
            if m is not None: d[M + k] = m
        return d
    def job(sub, part):
        drv = vf.Driver(exe, timeout=600)
        rp = mach.Replay(sub, drv, FakeLat)
        for n0 in range(0, len(part), 500):
            chunk = part[n0:n0 + 500]; cmds = [dict(op="reset"), dict(op="m_new", m="E", conf={"sim_type": "MomentMatrix", "elements": {"c": [mach.el("d", "drift", L=0.25)]}})]
            at = []
            for c, e in chunk:
                cf = conf(c); at.append(len(cmds))
                cmds += [dict(op="s_alloc", m="E", s="a", conf=cf), dict(op="s_get", s="a", full=True) if e["ok"] else dict(op="elems", m="E"),
                         dict(op="m_new", m="S", conf={"sim_type": "MomentMatrix", "elements": {"c": [mach.el("s", "source", **cf)]}}),
                         dict(op="s_alloc", m="E", s="b", conf=BEAM0) if e["ok"] else dict(op="elems", m="E"), dict(op="prop", m="S", s="b", start=0, max=1) if e["ok"] else dict(op="elems", m="E"),
                         dict(op="s_get", s="b", full=True) if e["ok"] else dict(op="elems", m="E")]
            Q = drv.batch(cmds)
            for (c, e), k in zip(chunk, at):
                bad = None
                if Q[k]["ok"] != e["ok"]: bad = "a state: %s" % ("refused, %s" % Q[k].get("msg") if e["ok"] else "accepted")
                elif Q[k + 2]["ok"] != e["ok"]: bad = "a source: %s" % ("refused, %s" % Q[k + 2].get("msg") if e["ok"] else "accepted")
                elif e["ok"]:
                    bad = beam_is(rp, Q[k + 1]["arr"], e) or (not Q[k + 4]["ok"] and "source refuses to pass") or beam_is(rp, Q[k + 5]["arr"], e)
                    if not bad and Q[k + 1]["fp"] != Q[k + 5]["fp"]: bad = "the source gives another beam than the same configuration allocated"
                if bad: sub.violation("beam", "configuration %s: %s" % (json.dumps(c), bad), dict(conf=conf(c), expected=e)); break
                sub.traces(1); sub.count("configurations")
            if sub.viol: break
        drv.close()
    vf.parallel(C, [("beam%d" % k, lambda s, k=k: job(s, out[k::6])) for k in range(6)])
BEAM0 = mach.MOM_INITS[1][0]
def beam_is(rp, arr, e):
    import struct
    V = lambda k: [struct.unpack(">d", bytes.fromhex(x))[0] for x in arr[k]["v"]]
    st = e["st"]; n = len(st)
    err = rp.charges(arr, [[s["z"], s["q"]] for s in st])
    if err: return err
    def cmp(k, want, tol=1e-12):
        g = V(k)
        if len(g) != len(want) or any(abs(a - b) > tol * max(1.0, abs(b)) for a, b in zip(g, want)): return "%s is %s, not %s" % (k, g, want)
    idm = [float(i == j) for i in range(7) for j in range(7) for k in range(n)]
    fr = 161e6 if e["freq"] else 80.5e6
    return cmp("moment0", [s["m0"][i] for i in range(7) for s in st]) or cmp("moment1", [s["m1"][i][j] for i in range(7) for j in range(7) for s in st]) or \
        cmp("phis", [s["phis"] for s in st]) or cmp("IonEk", [s["ek"] for s in st]) or cmp("transmat", idm) or cmp("SampleFreq", [fr] * n) or cmp("IonEs", [931.0e6] * n) or \
        cmp("IonW", [931.0e6 + s["ek"] for s in st]) or cmp("ref_IonEk", [500000.0]) or cmp("ref_IonEs", [931.0e6]) or cmp("ref_SampleFreq", [fr]) or \
        cmp("ref_IonZ", [e["rz"] / 238.0]) or cmp("ref_IonQ", [e["rq"]]) or cmp("ref_phis", [0.0]) or cmp("last_caviphi0", [0.0])

# ------------------------------------------------------------------ C14
def c14(C, exe):
    rng = C.rng; th = C.thorough
    camps = []
    names = ["a", "b", "c", "ab", "", "zz"]
    for k in range(3 if not th else 8):
        sim = ("mom", "vec", "mat")[k % 3]
        lat = Lattice(sim)
        n = 4
        typs = ["drift", "quadrupole", "marker", "drift"] if k != 1 else ["drift", "drift", "marker", "marker"]
        for i in range(n):
            t = typs[i]
            V = MOMV if sim == "mom" else LINV
            lat.add([lat.elem(t, V[t][1][0], name=nm) for nm in ["a", "b", rng.choice(["a", "ab", "c", ""])]])
        P = lat.param(slots=1, acts=["reconf", "prop", "reconfbad"], starts=[0], maxs=[BIG], depth=3 if not th else 4, ninits=1, rpos=[1, 2, 3, 4], nbadconf=3)
        camps.append(Campaign("look%d" % k, P, [(sim, lat, dict(elems=True, reclook=True, names=names, types=["drift", "quadrupole", "marker", "source", "x"], bad=dict(conf=badconfs()[:3])))],
                              limit=900 if not th else 20000))
    for k in range(3 if not th else 10):
        n = 30
        lat = Lattice("vec" if k % 2 else "mom")
        V = MOMV if lat.sim == "mom" else LINV
        for i in range(n):
            t = rng.choice(["drift", "marker", "quadrupole", "solenoid"])
            lat.add([lat.elem(t, V[t][1][0], name=rng.choice(names[:5])) for _ in range(3)])
        P = lat.param(slots=1, acts=["reconf"], depth=15, ninits=1, rpos=list(range(1, n + 1)))
        camps.append(Campaign("looklong%d" % k, P, [("n%d" % n, lat, dict(reclook=True, names=names, types=["drift", "quadrupole", "marker", "solenoid"]))], simulate=60 if not th else 300))
    mach.run_campaigns(C, exe, camps)

FN = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C11=c11, C12=c12, C13=c13, C14=c14)
def run(C):
    B = vf.build(("driver",))
    C.assumptions += ["element physics is not modelled: a machine built for a single step is the reference for what one element does",
                      "beam numbers, element variants and lattices are those of lib/mach.py, chosen by the seed"]
    FN[C.prop](C, B["driver"])

if __name__ == "__main__":
    prop = sys.argv[1]
    vf.main(prop, run)
