"""Concrete lattices for spec/Machine.tla and the executor that replays its behaviours on the real code."""
import os, json, math, struct, random, itertools
import vf

DATA = os.path.join(vf.VERIF, "data")
UNIT = 0.25          # one length unit of the specification, in metres (exact in binary)

# ------------------------------------------------------------------ beams (MomentMatrix)
S0 = [2.763, -4.28e-4, 0.0158, 2.155e-5, 1.8638e-4, -2.99e-5, 0.0,
      -4.28e-4, 3.849e-6, -1.38e-6, -1.854e-8, 1.0677e-7, 5.28e-9, 0.0,
      0.0158, -1.38e-6, 2.3625, -6.69e-4, -5.8e-4, 6.716e-6, 0.0,
      2.155e-5, -1.854e-8, -6.69e-4, 4.897e-6, -5.016e-7, 5.57e-8, 0.0,
      1.8638e-4, 1.0677e-7, -5.8e-4, -5.016e-7, 6.7168e-4, -1.23e-5, 0.0,
      -2.99e-5, 5.28e-9, 6.716e-6, 5.57e-8, -1.23e-5, 1.995e-6, 0.0,
      0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]
def scaled(k): return [x * (1.0 + 0.1 * k) for x in S0]
def cen(k, ph=0.0): return [-0.0007886 + 0.01 * k, 1.08e-05 + 1e-5 * k, 0.01337 - 0.003 * k, 6.678e-06, -0.0001847 + 0.01 * k + ph, 0.00031 + 1e-4 * k, 1.0]
def beam(ek, zs, qs, ph=0.0, sh=0, **kw):
    c = {"IonEs": 931.49432e6, "IonEk": ek, "IonChargeStates": [z / 238.0 for z in zs], "NCharge": list(qs)}
    for i in range(len(zs)):
        c["moment0%d" % i] = cen(i + sh, ph)
        c["initial%d" % i] = scaled(i + sh)
    c.update(kw)
    return c
# allocation configurations, and their abstract description: e = energy class, q = charge states
MOM_INITS = [
    (beam(0.5e6, [33, 34], [10111.0, 10531.0]), "e1"),
    (beam(0.62e6, [33, 34], [10111.0, 10531.0], sh=1), "e2"),
    (beam(0.5e6, [33, 34], [10111.0, 10531.0], ph=0.35, sh=2), "e1"),
    (beam(0.5e6, [33], [10111.0], sh=1), "e1"),
    (beam(1.1e6, [31, 32, 33, 34, 35], [4.0, 5.0, 6.0, 7.0, 8.0]), "e3"),
    (beam(0.5e6, [34, 33], [10531.0, 10111.0], sh=3), "e1"),
    (beam(0.5e6, [33, 34], [512.0, 1024.0], sh=1), "e1"),
    (beam(0.62e6, [28, 29, 30], [1.0, 2.0, 1.0], sh=4), "e2"),
]
def absq(c):
    if "cstate" in c:
        k = int(c["cstate"]); return [[round(c["IonChargeStates"][k] * 238, 6), c["NCharge"][k]]]
    return [[round(z * 238, 6), q] for z, q in zip(c["IonChargeStates"], c["NCharge"])]
def iq(c): return [[int(a), int(b)] for a, b in absq(c)]

LIN_INITS = [({"initial": [1.0 + i * j for i in range(6)]}, "e") for j in range(1, 6)]
LIN_INITS_M = [({"initial": [float((i * 7 + j) % 11) for i in range(36)]}, "e") for j in range(1, 6)]

# ------------------------------------------------------------------ elements
def el(name, typ, **kw):
    d = {"name": name, "type": typ}; d.update(kw); return d
MIS = [{}, {"dx": 1e-3}, {"dy": -2e-3}, {"pitch": 1e-3}, {"yaw": -2e-3}, {"roll": 5e-3},
       {"dx": 2e-3, "dy": 1e-3, "pitch": 5e-4, "yaw": 1e-3, "roll": -1e-2}]
R7 = lambda *e: [float(x) for x in e]
def tmat(k):
    m = [[1.0 if i == j else 0.0 for j in range(7)] for i in range(7)]
    m[0][1] = 0.5 * k; m[2][3] = -0.25 * k; m[0][2] = 0.1 * k; m[4][5] = 0.3 + k; m[1][6] = 1e-3 * k; m[1][0] = 0.01 * k
    return sum(m, [])
def rfc(cav, f, phi, scl, **kw):
    d = dict(cavtype=cav, f=f, phi=phi, scl_fac=scl, Eng_Data_Dir=DATA, L=UNIT); d.update(kw); return d
# type -> (kind, list of parameter sets); the first is the base, the others vary one thing (or several)
def variants():
    V = {}
    V["marker"] = ("pas0", [dict(), dict(aper=0.1), dict(L=1.0)])
    V["bpm"] = ("pas0", [dict(), dict(aper=0.1)])
    V["drift"] = ("pas", [dict(L=UNIT), dict(L=UNIT, skipcache=1.0), dict(L=UNIT, aper=0.02)])
    b = dict(theta_x=1e-3, theta_y=-2e-3)
    V["orbtrim"] = ("pas0", [b, dict(b, theta_x=3e-3), dict(b, theta_y=4e-3), dict(realpara=1.0, tm_xkick=1e-4, tm_ykick=-2e-4),
                             dict(b, xyrotate=30.0), dict(b, realpara=1.0, tm_xkick=1e-4)] + [dict(b, **m) for m in MIS[1:]])
    b = dict(L=UNIT, phi=-5.0, phi1=1.0, phi2=-2.0, K=0.1, bg=0.033)
    V["sbend"] = ("pas", [b, dict(b, phi=4.0), dict(b, phi1=3.0), dict(b, phi2=2.5), dict(b, K=-0.3), dict(b, HdipoleFitMode="0"),
                          dict(b, HdipoleFitMode=0.0, bg=0.05), dict(b, HdipoleFitMode=1.0)] + [dict(b, **m) for m in MIS[1:]])
    b = dict(L=UNIT, B2=5.0)
    cu = dict(L=UNIT, ncurve=2.0, curve0=[1.0, 2.0, 1.5], curve1=[0.5, 0.25, 0.75], scl_fac0=2.0, scl_fac1=-1.0)
    V["quadrupole"] = ("pas", [b, dict(b, B2=-6.0), cu, dict(cu, scl_fac0=3.0), dict(cu, curve1=[0.1, 0.2, 0.3]), dict(cu, use_range=[0.0, 2.0]),
                               dict(L=UNIT, ncurve=2.0, CurveFile="curve_sample.lat", Eng_Data_Dir=DATA, scl_fac0=1.0, scl_fac1=0.5)] + [dict(b, **m) for m in MIS[1:]])
    b = dict(L=UNIT, B=2.0)
    V["solenoid"] = ("pas", [b, dict(b, B=-3.0), cu, dict(cu, scl_fac1=0.7), dict(cu, ncurve="1")] + [dict(b, **m) for m in MIS[1:]])
    b = dict(L=UNIT, phi=20.0, fringe_x=0.1, fringe_y=-0.2, beta=0.03, spher=1.0, ver=1.0, asym_fac=0.1)
    V["edipole"] = ("pas", [b, dict(b, phi=30.0), dict(b, ver=0.0), dict(b, spher=0.0), dict(b, HdipoleFitMode="0"), dict(b, fringe_x=0.5), dict(b, asym_fac=0.4),
                            dict(b, HdipoleFitMode=0.0, beta=0.04), dict(b, fringe_y=0.6)] + [dict(b, **m) for m in MIS[1:]])
    b = dict(L=UNIT, V=-300.0, radius=0.07)
    V["equad"] = ("pas", [b, dict(b, V=500.0), dict(b, radius=0.05), cu] + [dict(b, **m) for m in MIS[1:]])
    b = dict(L=UNIT, matrix=tmat(1))
    V["tmatrix"] = ("pas", [b, dict(b, matrix=tmat(2)), dict(b, matrix=tmat(3), skipcache=1.0)])
    b = dict(L=UNIT, B3=10.0, dstkick=1.0, step=3.0)
    V["sextupole"] = ("fwd", [b, dict(b, B3=-20.0), dict(b, step=5.0), dict(b, dstkick=0.0), dict(b, thinlens=1.0), dict(b, B3=0.0)] + [dict(b, **m) for m in MIS[1:]])
    g = rfc("Generic", 80.5e6, -35.0, 0.6, datafile="thinlenlon_41.lat")
    q = rfc("0.041QWR", 80.5e6, -35.0, 0.64)
    V["rfcavity"] = ("cav", [q, dict(q, phi=-20.0), dict(q, scl_fac=0.3), rfc("0.085QWR", 80.5e6, -30.0, 0.5), rfc("0.29HWR", 322e6, -35.0, 0.3),
                             rfc("0.53HWR", 322e6, -35.0, 0.2), g, dict(g, datafile="thinlenlon_85.lat"), dict(g, phi=-10.0), dict(g, scl_fac=0.8),
                             dict(g, MpoleLevel="0"), dict(q, MpoleLevel="1"), dict(q, EmitGrowth="1"), dict(g, EmitGrowth=1.0), dict(q, syncflag=0.0),
                             rfc("Generic", 80.5e6, -35.0, 0.6, datafile="thinlenlon_41_p.lat"), dict(q, forcettfcalc=1.0), dict(q, f=161e6), dict(g, syncflag=2.0),
                             rfc("Generic", 322e6, -35.0, 0.4, datafile="thinlenlon_29_p.lat")]
                 + [dict(q, **m) for m in MIS[1:]] + [dict(g, **MIS[6])])
    return V
MOMV = variants()
STRIP = [dict(IonChargeStates=[76 / 238.0, 77 / 238.0, 78 / 238.0], NCharge=[1.0, 3.0, 2.0], charge_model="off", Stripper_E0Para=[0.7e6, 0.5, -0.1], Stripper_Para=[3.0, 20.0, 0.6e6]),
         dict(IonChargeStates=[55 / 238.0, 56 / 238.0], NCharge=[7.0, 9.0], charge_model="off", Stripper_IonZ=55 / 238.0, Stripper_E0Para=[0.9e6, 0.4, -0.1], Stripper_Para=[3.0, 10.0, 0.6e6]),
         dict(IonChargeStates=[78 / 238.0], NCharge=[5.0], charge_model="off", Stripper_E0Para=[0.7e6, 0.5, -0.1], Stripper_Para=[3.0, 20.0, 0.6e6], Stripper_E1Para=3e-3),
         dict(IonChargeStates=[74 / 238.0, 75 / 238.0, 76 / 238.0, 77 / 238.0, 78 / 238.0, 79 / 238.0], NCharge=[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], charge_model="off",
              Stripper_E0Para=[0.6e6, 0.6, -0.2], Stripper_Para=[2.0, 20.0, 0.6e6], Stripper_lambda=4.0, Stripper_upara=2.0),
         dict(IonChargeStates=[60 / 238.0, 61 / 238.0, 62 / 238.0], NCharge=[3.0, 0.0, 4.0], charge_model="off", Stripper_E0Para=[0.6e6, 0.6, -0.2], Stripper_Para=[2.0, 20.0, 0.6e6]),
         dict(IonChargeStates=[k / 238.0 for k in (18, 19, 20, 21)], NCharge=[1.0] * 4, Stripper_E0Para=[0.6e6, 0.6, -0.2], Stripper_Para=[2.0, 20.0, 0.6e6]),
         dict(IonChargeStates=[k / 238.0 for k in range(14, 27)], NCharge=[1.0] * 13, charge_model="baron", Stripper_IonProton=80.0, Stripper_E0Para=[0.6e6, 0.6, -0.2], Stripper_Para=[2.0, 20.0, 0.6e6]),
         dict(IonChargeStates=[k / 238.0 for k in (17, 19)], NCharge=[], charge_model="baron", Stripper_IonMass=200.0, Stripper_IonProton=60.0, Stripper_E0Para=[0.6e6, 0.6, -0.2], Stripper_Para=[2.0, 20.0, 0.6e6])]
def baron(conf, beta):
    "Baron's distribution of charges behind a carbon foil"
    p, m = conf.get("Stripper_IonProton", 92.0), conf.get("Stripper_IonMass", 238.0)
    q1 = p * (1 - math.exp(-83.275 * beta / p ** 0.447))
    qa = q1 * (1 - math.exp(-12.905 + 0.2124 * p - 0.00122 * p * p))
    y = q1 / p
    d = math.sqrt(q1 * (0.07535 + 0.19 * y - 0.2654 * y * y))
    return [math.exp(-0.5 * ((z * m - qa) / d) ** 2) / math.sqrt(2 * math.pi) / d for z in conf["IonChargeStates"]]
BROKEN = [("quadrupole", dict(L=UNIT)), ("sbend", dict(L=UNIT, phi=1.0)), ("tmatrix", dict(L=UNIT, matrix=[1.0, 2.0])), ("solenoid", dict(L=UNIT)),
          ("edipole", dict(L=UNIT, phi=1.0)), ("edipole", dict(L=UNIT, phi=20.0, fringe_x=0.1, fringe_y=-0.2, beta=0.03, spher=1.0, ver=1.0, asym_fac=0.1, HdipoleFitMode="3")),
          ("stripper", dict(STRIP[0], IonChargeStates=[])), ("stripper", dict(STRIP[0], NCharge=[1.0])), ("stripper", dict(STRIP[0], Stripper_Para=[1.0])), ("stripper", dict(STRIP[0], charge_model="none")), ("equad", dict(L=UNIT, V=1.0)), ("rfcavity", {k: v for k, v in rfc("0.041QWR", 80.5e6, -35.0, 0.6).items() if k != "scl_fac"}),
          ("quadrupole", dict(L=UNIT, ncurve=1.0)), ("solenoid", dict(L=UNIT, ncurve=1.0, CurveFile="nofile.lat", Eng_Data_Dir=DATA))]

LINV = {
    "marker": ("pas", [dict(L=UNIT), dict(L=UNIT, aper=1.0)]),
    "drift": ("pas", [dict(L=UNIT)]),
    "sbend": ("pas", [dict(L=UNIT, phi=0.3), dict(L=UNIT, phi=0.4), dict(L=UNIT, phi=0.3, K=0.2)]),
    "quadrupole": ("pas", [dict(L=UNIT, K=0.7), dict(L=UNIT, K=-0.7), dict(L=UNIT)]),
    "solenoid": ("pas", [dict(L=UNIT, K=0.5), dict(L=UNIT, K=-0.8), dict(L=UNIT)]),
    "generic": ("pas", [dict(L=UNIT, transfer=[float((5 * i + 3) % 7 - 3) for i in range(36)]), dict(L=UNIT, transfer=[float((3 * i + 1) % 5 - 2) for i in range(36)]),
                        dict(L=UNIT, transfer=[2.0, 1.0])]),
}

SIMNAME = {"mom": "MomentMatrix", "vec": "Vector", "mat": "TransferMatrix"}

# ------------------------------------------------------------------ integer beams and matrices: exact in the specification and in the code
def ints(l): return [int(x) for x in l]
def rows(l, n): return [ints(l[i * n:(i + 1) * n]) for i in range(n)]
def exact_beam(sim, c):
    if sim == "vec": return [dict(m0=ints(c["initial"]), m1=[])]
    if sim == "mat": return [dict(m0=[], m1=rows(c["initial"], 6))]
    return [dict(m0=ints(c["moment0%d" % k]), m1=rows(c["initial%d" % k], 7)) for k in range(len(c["NCharge"]))]
def ident(n): return [[int(i == j) for j in range(n)] for i in range(n)]
def matmul(A, B): return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]
def shears(rng, n, m, last=False):
    "an integer matrix with an integer inverse: a product of shears and row exchanges"
    A, B = ident(n), ident(n)
    d = n - 1 if last else n
    for _ in range(m):
        E, F = ident(n), ident(n)
        i, j = rng.sample(range(d), 2)
        t = rng.randrange(4)
        if t == 0:
            for M in (E, F): M[i][i] = M[j][j] = 0; M[i][j] = M[j][i] = 1
        elif t == 1 and last:
            k = rng.choice([-1, 1, 2]); E[i][n - 1] = k; F[i][n - 1] = -k
        else:
            k = rng.choice([-1, 1]); E[i][j] = k; F[i][j] = -k
        A, B = matmul(E, A), matmul(B, F)
    return A, B
def exact_inits(rng, sim, m):
    R = []
    for _ in range(m):
        if sim == "vec": R.append(({"initial": [float(rng.randrange(-3, 4)) for _ in range(6)]}, "e"))
        elif sim == "mat": R.append(({"initial": [float(rng.randrange(-2, 3)) for _ in range(36)]}, "e"))
        else:
            n = rng.choice([1, 2, 3])
            c = {"IonEs": 931.0e6, "IonEk": 0.5e6, "IonChargeStates": [(30 + k) / 238.0 for k in range(n)], "NCharge": [float(rng.choice([1, 2])) for k in range(n)]}
            for k in range(n):
                c["moment0%d" % k] = [float(rng.randrange(-2, 3)) for _ in range(6)] + [1.0]
                S = [[0.0] * 7 for _ in range(7)]
                for i in range(6):
                    for j in range(i): S[i][j] = S[j][i] = float(rng.choice([-1, 0, 0, 0, 1]))
                for i in range(6): S[i][i] = sum(abs(x) for x in S[i]) + rng.randrange(1, 3)      # positive definite, as a beam is
                c["initial%d" % k] = sum(S, [])
            R.append((c, "e%d" % len(R)))
    return R
def exact_lattice(rng, sim, kinds, inits=4, alts=1, m=2):
    lat = Lattice(sim, exact_inits(rng, sim, inits))
    lat.exact = sim
    n = 7 if sim == "mom" else 6
    for k, kind in enumerate(kinds):
        A = []
        for j in range(alts):
            if kind == "src":
                e = lat.source((k + j) % inits, name="S%d" % k); e["x"] = exact_beam(sim, lat.inits[(k + j) % inits][0])
            elif kind == "mark":
                e = lat.elem("marker", {}, name="m%d" % k, kind="pas0"); e["mat"] = e["inv"] = ident(n)
            else:
                M, I = shears(rng, n, m, sim == "mom")
                fl = [float(x) for r in M for x in r]
                e = lat.elem("tmatrix" if sim == "mom" else "generic", dict(L=UNIT * (1 + k % 2), **{"matrix" if sim == "mom" else "transfer": fl}), name="g%d_%d" % (k, j))
                e["mat"], e["inv"] = M, I
            A.append(e)
        lat.add(A)
    return lat

class Lattice:
    """positions with alternative configurations; sim in mom/vec/mat"""
    def __init__(self, sim, inits=None):
        self.sim = sim
        self.exact = "no"
        self.simtype = SIMNAME[sim]
        self.pos = []       # list of lists of dict(conf=, kind=, len=, name=, type=, e=, q=)
        self.inits = inits if inits is not None else (MOM_INITS if sim == "mom" else LIN_INITS if sim == "vec" else LIN_INITS_M)
        self.writes = [dict(en=False)]
        self.wconc = [("moment0", [0, 0], 0.125)] if sim == "mom" else [("state", [0] if sim == "vec" else [0, 1], 0.125)]
    def add(self, alts):
        self.pos.append(alts)
        return len(self.pos) - 1
    def elem(self, typ, params, name=None, ln=None, kind=None):
        i = len(self.pos)
        name = name or "%s_%d" % (typ, i)
        if kind is None:
            if typ == "source": kind = "src"
            elif typ == "stripper": kind = "str"
            else: kind = (MOMV if self.sim == "mom" else LINV)[typ][0]
        L = params.get("L", 0.0)
        d = dict(conf=el(name, typ, **params), kind="pas" if kind == "pas0" else kind, name=name, type=typ,
                 len=0 if (kind in ("pas0", "str", "src")) else int(round(L / UNIT)))
        if kind == "src":
            d["e"] = params.get("_e", "e")
            d["conf"].pop("_e", None)
            d["q"] = iq(params) if self.sim == "mom" else []
        if kind == "str":
            # by default the weights follow the beam's speed (Baron): not a number of the specification
            d["q"] = iq(params) if params.get("charge_model", "baron") == "off" else [[int(round(z * 238)), -1] for z in params["IonChargeStates"]]
        return d
    def source(self, k, name="S"):
        c, e = self.inits[k]
        return self.elem("source", dict(c, _e=e), name=name)
    def conf(self, sel=None):
        sel = sel or [0] * len(self.pos)
        return {"sim_type": self.simtype, "elements": {"c": [p[s]["conf"] for p, s in zip(self.pos, sel)]}}
    def param(self, **kw):
        P = dict(sim="mom" if self.sim == "mom" else "lin", n=len(self.pos), slots=2, acts=["alloc", "prop"], starts=[0], maxs=[1], depth=3,
                 rpos=[], opos=[], obs0=[], start=[1], nbadalloc=0, nbadbuild=0, nbadconf=0, rand=False, writes=self.writes, exact=self.exact)
        P["cfgs"] = [[{k: a[k] for k in ("kind", "len", "e", "q", "mat", "inv", "x") if k in a} for a in p] for p in self.pos]
        P["inits"] = [dict(e=e, q=iq(c) if self.sim == "mom" else []) for c, e in self.inits]
        if self.exact != "no":
            for i, (c, e) in zip(P["inits"], self.inits): i["x"] = exact_beam(self.sim, c)
        P.update(kw)
        P["inits"] = P["inits"][:P.pop("ninits", len(P["inits"]))]
        # JSON arrays of mixed emptiness are fine for TLC; records must have the fields the spec reads
        for p in P["cfgs"]:
            for a in p:
                a.setdefault("e", ""); a.setdefault("q", []); a.setdefault("mat", []); a.setdefault("inv", []); a.setdefault("x", [])
        return P

CFG = "SPECIFICATION Spec\nINVARIANT VisitsOK\nINVARIANT SplitOK\nINVARIANT UndoOK\nPROPERTIES FailOK IndepOK\nCHECK_DEADLOCK FALSE\n"
CFGEXACT = "SPECIFICATION Spec\nINVARIANT VisitsOK\nPROPERTIES FailOK IndepOK\nCHECK_DEADLOCK FALSE\n"
CFGSIM = "SPECIFICATION Spec\nINVARIANT VisitsOK\nCHECK_DEADLOCK FALSE\n"

def behaviours(C, P, name, simulate=None, workers=4, timeout=600, heap="4g", seed=None):
    p = C.work.path("mp-%s.json" % name)
    with open(p, "w") as f: json.dump(P, f)
    if simulate:
        P = dict(P, rand=True)
        with open(p, "w") as f: json.dump(P, f)
        R = vf.tlc("Machine", CFGSIM, C.work, name=name, workers=workers, simulate=simulate, depth=P["depth"] + 2, env=dict(MPARAM=p), timeout=timeout, heap=heap, seed=seed)
    else:
        R = vf.tlc("Machine", CFG if P["exact"] == "no" else CFGEXACT, C.work, name=name, workers=workers, env=dict(MPARAM=p), timeout=timeout, heap=heap)
    C.model(R)
    return R.out

class Campaign:
    """behaviours of the specification under parameters P (all of them, or `simulate` random ones),
    each replayed on every lattice in `lats` (list of (tag, Lattice, replay options))"""
    def __init__(self, name, P, lats, simulate=None, seed=None, limit=None, keep=None):
        self.name, self.P, self.lats, self.simulate, self.seed, self.limit, self.keep = name, P, lats, simulate, seed, limit, keep

def run_campaigns(C, exe, camps, nproc=7):
    from concurrent.futures import ThreadPoolExecutor
    keys = {}
    for c in camps:
        keys.setdefault((json.dumps(c.P, sort_keys=True), c.simulate, c.seed), []).append(c)
    def gen(item):
        n, ((pj, sim, seed), cs) = item
        return behaviours(C, json.loads(pj), "%s.%d" % (cs[0].name, n), simulate=sim, workers=2 if not sim else 1, seed=seed)
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(gen, enumerate(keys.items())))
    jobs = []
    for (k, cs), out in zip(keys.items(), outs):
        if not out: raise vf.CheckError("no behaviours for " + cs[0].name)
        for c in cs:
            o = out if not c.keep else [h for h in out if c.keep(h)]
            if c.limit and len(o) > c.limit:
                o = random.Random(vf.SEED * 13 + len(o)).sample(o, c.limit)
            for tag, lat, opts in c.lats:
                def job(sub, o=o, lat=lat, opts=opts, tag=tag, c=c):
                    drv = vf.Driver(exe, timeout=600)
                    rp = Replay(sub, drv, lat, slots=c.P["slots"], obs0=c.P["obs0"], start=c.P["start"], **opts)
                    for h in o:
                        rp.script(h)
                        if len(sub.viol) > 5: break
                    rp.flush()
                    drv.close()
                    sub.sample(dict(kind="replayed behaviour", lattice=tag, calls=[s["a"] for s in o[len(o) // 2]]))
                jobs.append((c.name + ":" + tag, job))
    vf.parallel(C, jobs, nproc)
    vf.log("%d behaviour sets, %d replays, %d behaviours" % (len(keys), len(jobs), C.cov["traces_validated_against_impl"]))

# ------------------------------------------------------------------ replay
BIG = 1000000
LOOSE = 2e-4
MSC = [10.0, 0.02, 10.0, 0.02, 0.1, 0.05, 1.0]      # size of a beam in phase space [mm, rad, mm, rad, rad, MeV/u, 1]
def cmax(n): return n if abs(n) < BIG else 2147483647 if n > 0 else (-2147483648 if n <= -2 * BIG else -2147483647)
class Replay:
    """turns a behaviour of the specification into driver commands and judges the answers"""
    def __init__(self, C, drv, lat, full=False, nocache=False, elems=False, bad=None, obs0=(), start=(1,), slots=2, allslots=False, names=None, types=None, reclook=False, undo=None, undokey=None):
        self.undokey = undokey      # recorded finding that allows a larger error
        self.undo = undo            # tolerance: histories that cancel must give back the beam
        self.C, self.drv, self.lat = C, drv, lat
        self.full, self.nocache, self.elems, self.bad = full, nocache, elems, bad or {}
        self.obs0, self.start, self.slots, self.allslots = obs0, start, slots, allslots
        self.names, self.types, self.reclook = names, types, reclook
        self.wordfp = {}
        self.buf = []       # (script, cmds, judges)
        self.ncmds = 0
        self.flushat = 60000
    def inst(self, conf):   # configuration of the cache-free twin
        return dict(conf, skipcache=1.0)
    def script(self, hist, lat=None):
        lat = lat or self.lat
        cmds, judge = [], []
        def cmd(j=None, **c):
            cmds.append(c); judge.append(j); return len(cmds) - 1
        sel = [0] * len(lat.pos)
        word = {}
        memword = {}
        obs = set(self.obs0)
        trace = False
        lastfp = {}
        red, origin, redscale = {}, {}, {}
        def step_red(s, x):
            "what is left of the history of a state when a pass and its undoing cancel"
            w = red[s]
            inv = dict(f="b", b="f", cf="u")
            if x[0] == "u" or (x[0] in "fb" and w and w[-1][0] == inv[x[0]] and w[-1][1:] == x[1:]):
                if w and w[-1][1:] == x[1:] and inv.get(w[-1][0]) == x[0]: red[s] = w[:-1]; return
            red[s] = w + (x,)
        cmd(op="reset")
        def ok(r, want=True): return None if r.get("ok") == want else "call %s" % ("refused: %s" % r.get("msg") if want else "accepted")
        cmd(lambda r, R: ok(r), op="m_new", m="M", conf=lat.conf(sel))
        if self.nocache:
            twin = lambda c: {"sim_type": c["sim_type"], "elements": {"c": [self.inst(e) for e in c["elements"]["c"]]}}
            cmd(lambda r, R: ok(r), op="m_new", m="T", conf=twin(lat.conf(sel)))
        for i in obs: cmd(op="observe", m="M", i=i - 1, on=True)
        def alloc(s, k):
            cmd(lambda r, R: ok(r), op="s_alloc", m="M", s="s%d" % s, conf=lat.inits[k - 1][0])
            cmd(op="s_alloc", m="M", s="o%d" % s, conf=lat.inits[k - 1][0])
            if self.nocache: cmd(op="s_alloc", m="T", s="t%d" % s, conf=lat.inits[k - 1][0])
            word[s] = red[s] = (("init", k),)
        for n, k in enumerate(self.start): alloc(n + 1, k)
        def sview(s, v):
            "slot s must now look like the specification says, and hold the beam the oracle holds"
            if not v["def"]: return
            a = cmd(op="s_get", s="o%d" % s)
            def j(r, R):
                if r["fp"] != R[a]["fp"]: return "state %d differs from what a machine without history gives" % s
                if abs(r["pos"] - v["pos"] * UNIT) > 0: return "position %s instead of %s" % (r["pos"], v["pos"] * UNIT)
                if v["next"] != -2 and r["next"] != v["next"]: return "next element %s instead of %s" % (r["next"], v["next"])
                w = word_s
                old = self.wordfp.setdefault(w, r["fp"])
                if old != r["fp"]: return "equal histories gave different states"
                if "x" in v:
                    e = self.exact(r["arr"], v, back)
                    if e: return "state %d: %s" % (s, e)
                if self.full:
                    e = self.charges(r["arr"], v["q"])
                    if e: return e
                if self.undo and orig != me:
                    return self.same_beam(R[orig]["arr"], r["arr"])
            word_s = hash(word[s])
            back = any(x[0] == "b" for x in word[s])
            me = cmd(j, op="s_get", s="s%d" % s, full=self.full or bool(self.undo) or "x" in v)
            orig = origin.setdefault(red[s], me)
            if self.nocache:
                cmd(lambda r, R: None if r["fp"] == R[a]["fp"] else "without reuse of matrices state %d differs" % s, op="s_get", s="t%d" % s)
        for step in hist:
            a, exp, sl = step["a"], step["ok"], step["sl"]
            op = a["op"]
            if op == "alloc":
                alloc(a["s"], a["k"])
            elif op == "allocbad":
                cmd(lambda r, R: ok(r, False), op="s_alloc", m="M", s="x", conf=self.bad["alloc"][a["k"] - 1])
            elif op == "buildbad":
                cmd(lambda r, R: ok(r, False), op="m_new", m="X", conf=self.bad["build"][a["k"] - 1])
            elif op in ("clone", "assign"):
                for p in "so" + ("t" if self.nocache else ""):
                    cmd(lambda r, R: ok(r), op="s_" + op, s="%s%d" % (p, a["t"]), **{"from": "%s%d" % (p, a["s"])})
                word[a["t"]] = word[a["s"]]; red[a["t"]] = red[a["s"]]
            elif op == "write":
                n, ix, v = lat.wconc[a["k"] - 1]
                for p in "so" + ("t" if self.nocache else ""):
                    cmd(lambda r, R: ok(r), op="s_set", s="%s%d" % (p, a["s"]), name=n, idx=ix, val=v)
                word[a["s"]] = word[a["s"]] + (("w", a["k"]),); red[a["s"]] += (("w", a["k"]),)
            elif op == "observe":
                cmd(op="observe", m="M", i=a["i"], on=a["on"])
                (obs.add if a["on"] else obs.discard)(a["i"] + 1)
            elif op == "trace":
                trace = a["on"]
            elif op == "reconf":
                i, k = a["i"], a["k"] - 1
                sel[i] = k
                memword.pop(i, None)
                cmd(lambda r, R: ok(r), op="reconf", m="M", i=i, conf=lat.pos[i][k]["conf"])
                if self.nocache: cmd(op="reconf", m="T", i=i, conf=self.inst(lat.pos[i][k]["conf"]))
            elif op == "reconfbad":
                i = a["i"]
                b = self.bad["conf"][a["k"] - 1](lat, i, sel[i])
                cmd(lambda r, R: ok(r, False), op="reconf", m="M", i=b[0], conf=b[1])
            elif op == "prop":
                s = a["s"]
                want = []
                for v in step["vis"]:
                    i = v["i"]
                    cf = lat.pos[i][sel[i]]
                    d = v["dir"] if lat.sim == "mom" else "f"
                    c = dict(op="oracle", s="o%d" % s, sim=lat.simtype, conf=cf["conf"], dir=d)
                    if cf["kind"] == "cav" and d == "f":
                        cmd(op="s_clone", s="p%d" % i, **{"from": "o%d" % s})
                        memword[i] = word[s]
                    if v["p"]: c["prev"] = "p%d" % i
                    bar = self.full and cf["kind"] == "str" and v["ok"] and cf["conf"].get("charge_model", "baron") == "baron"
                    if bar: b0 = cmd(op="s_get", s="o%d" % s, full=True)
                    x = cmd(None if v["ok"] else (lambda r, R: "a fresh machine accepts what the specification refuses" if r["ok"] else None), **c)
                    if bar:
                        def jb(r, R, b0=b0, cf=cf):
                            D = lambda h: struct.unpack(">d", bytes.fromhex(h))[0]
                            w = baron(cf["conf"], D(R[b0]["arr"]["beta"]["v"][0]))
                            g = [D(h) for h in r["arr"]["IonQ"]["v"]]
                            if len(g) != len(w) or any(not abs(a - b) <= 1e-9 * max(w) for a, b in zip(g, w)): return "stripper weights %s instead of %s" % (g, w)
                        cmd(jb, op="s_get", s="o%d" % s, full=True)
                    if v["ok"] and not v["p"]:
                        judge[x] = lambda r, R: None if r["ok"] else "a fresh machine refuses: %s" % r.get("msg")
                    if cf["kind"] == "src" and d == "f": red[s] = (("src", i, sel[i]),)
                    elif v["ok"] and cf["kind"] != "src": step_red(s, ("u" if v["p"] else "cf" if cf["kind"] == "cav" else d, i, sel[i]))
                    if cf["kind"] == "src" and d == "f": word[s] = (("src", i, sel[i]),)
                    elif cf["kind"] == "src": pass
                    elif v["p"]: word[s] = word[s] + (("u", i, sel[i], memword[i]),)
                    else: word[s] = word[s] + ((d, i, sel[i]),)
                    if v["ok"]: want.append((i, x, v))
                def j(r, R, want=want, exp=exp, obs=frozenset(obs), trace=trace, sel=list(sel)):
                    e = ok(r, exp)
                    if e: return "propagation: " + e
                    exobs = [(i, x, v) for i, x, v in want if i + 1 in obs]
                    got = r["obs"]
                    if [o["i"] for o in got] != [i for i, x, v in exobs]: return "observed elements %s instead of %s" % ([o["i"] for o in got], [i for i, x, v in exobs])
                    for o, (i, x, v) in zip(got, exobs):
                        if o["fp"] != R[x]["st"]["fp"]: return "observation at element %d is not the state right after it" % i
                        if o["pos"] != v["pos"] * UNIT: return "observation at element %d has position %s, not %s" % (i, o["pos"], v["pos"] * UNIT)
                        if self.full:
                            e = self.charges(o["arr"], v["q"])
                            if e: return "at element %d: %s" % (i, e)
                    if trace:
                        wt = ["After [%d] %s " % (i, lat.pos[i][sel[i]]["name"]) for i, x, v in want]
                        gt = r["trace"]
                        if len(gt) != len(wt) or any(not g.startswith(w) for g, w in zip(gt, wt)): return "trace %s instead of %s" % ([g[:30] for g in gt], wt)
                        if any(len(g.rstrip()) <= len(w.rstrip()) for g, w in zip(gt, wt)): return "trace line without the state"
                cmd(j, op="prop", m="M", s="s%d" % s, start=a["start"] if a["start"] >= 0 else "max", max=cmax(a["max"]), trace=trace, full=self.full)
                if self.nocache:
                    cmd(lambda r, R, exp=exp: ok(r, exp), op="prop", m="T", s="t%d" % s, start=a["start"] if a["start"] >= 0 else "max", max=cmax(a["max"]))
            tgt = a.get("t", a.get("s"))
            for s in ([tgt] if not self.allslots and tgt and op in ("alloc", "clone", "assign", "write", "prop") else range(1, self.slots + 1)):
                if s in word: sview(s, sl[s - 1])
            if self.elems and op in ("reconf", "reconfbad", "prop", "buildbad"):
                x = cmd(op="m_new", m="F", conf=lat.conf(sel))
                y = cmd(op="elems", m="F", conf=True)
                def je(r, R, y=y, obs=frozenset(obs)):
                    f = R[y]
                    for k in ("simtype", "size", "show"):
                        if r[k] != f[k]: return "listing differs from a machine built with the current settings"
                    for e, g in zip(r["elems"], f["elems"]):
                        for k in ("index", "name", "type", "length", "conf", "show"):
                            if e[k] != g[k]: return "element %d: %s is %s, a fresh machine has %s" % (g["index"], k, str(e[k])[:300], str(g[k])[:300])
                        if e["obs"] != (g["index"] + 1 in obs): return "observer of element %d %s" % (g["index"], "lost" if not e["obs"] else "appeared")
                cmd(je, op="elems", m="M", conf=True)
            if self.reclook:
                nm = {n: [i for i in range(len(sel)) if lat.pos[i][sel[i]]["name"] == n] for n in self.names}
                ty = {n: [i for i in range(len(sel)) if lat.pos[i][sel[i]]["type"] == n] for n in self.types}
                def jl(r, R, nm=nm, ty=ty, n=len(sel)):
                    if r["name"] != nm: return "by name: %s instead of %s" % (r["name"], nm)
                    if r["type"] != ty: return "by type: %s instead of %s" % (r["type"], ty)
                    if r["find"] != {k: v + [-1] for k, v in nm.items()}: return "n-th match: %s instead of %s" % (r["find"], nm)
                    if sorted(r["all"]) != list(range(n)): return "all: %s" % r["all"]
                cmd(jl, op="lookup", m="M", names=self.names, types=self.types)
        for s in range(1, self.slots + 1):
            if s in word and not self.allslots: sview(s, hist[-1]["sl"][s - 1])
        cmd(lambda r, R: None if r["bad"] == 0 else "a snapshot changed after it was handed out", op="snaps")
        self.buf.append((hist, lat, cmds, judge))
        self.ncmds += len(cmds)
        if self.ncmds > self.flushat: self.flush()
    def exact(self, arr, v, back):
        "the beam the specification computed; bit by bit unless matrices were inverted"
        def V(k): return [struct.unpack(">d", bytes.fromhex(x))[0] for x in arr[k]["v"]]
        tol = 1e-9 if back else 0.0
        def cmp(what, got, want, t=tol):
            if len(got) != len(want): return "%s has %d numbers, not %d" % (what, len(got), len(want))
            sc = max([1.0] + [abs(w) for w in want])
            for k, (g, w) in enumerate(zip(got, want)):
                if not abs(g - w) <= t * sc: return "%s[%d] is %r, the matrices give %r" % (what, k, g, w)
        x = v["x"]
        if self.lat.sim == "vec": return cmp("state", V("state"), x[0]["m0"])
        if self.lat.sim == "mat": return cmp("state", V("state"), sum(x[0]["m1"], []))
        n = len(x)
        e = cmp("moment0", V("moment0"), [x[k]["m0"][i] for i in range(7) for k in range(n)]) or \
            cmp("moment1", V("moment1"), [x[k]["m1"][i][j] for i in range(7) for j in range(7) for k in range(n)])
        if e: return e
        t, A, B = v["avg"]
        e = cmp("moment0_env", V("moment0_env"), [a / t for a in A], 1e-9) or \
            cmp("moment1_env", V("moment1_env"), [B[i][j] / t ** 3 if i < 6 and j < 6 else 0.0 for i in range(7) for j in range(7)], 1e-9)
        if e: return e
        return cmp("moment0_rms", V("moment0_rms"), [math.sqrt(max(B[i][i], 0) / t ** 3) if i < 6 else 0.0 for i in range(7)], 1e-5 if back else 1e-9)
    def charges(self, arr, q):
        "C13: one common number of charge states, their identity and weight, and the averages"
        n = len(q)
        def V(k): return [struct.unpack(">d", bytes.fromhex(x))[0] for x in arr[k]["v"]]
        for k in ("IonZ", "IonEs", "IonW", "gamma", "beta", "bg", "SampleFreq", "SampleIonK", "phis", "IonEk", "IonQ"):
            if arr[k]["dim"] != [n]: return "%s has shape %s with %d charge states" % (k, arr[k]["dim"], n)
        if arr["moment0"]["dim"] != [7, n] or arr["moment1"]["dim"] != [7, 7, n] or arr["transmat"]["dim"] != [7, 7, n]:
            return "moment arrays have shapes %s %s %s with %d charge states" % (arr["moment0"]["dim"], arr["moment1"]["dim"], arr["transmat"]["dim"], n)
        Z, Q = V("IonZ"), V("IonQ")
        for k in range(n):
            if abs(Z[k] * 238.0 - q[k][0]) > 1e-6 or (q[k][1] >= 0 and Q[k] != q[k][1]): return "charge state %d is (%g/238, %g), expected (%g/238, %g)" % (k, Z[k] * 238, Q[k], q[k][0], q[k][1])
        m0, m1, env, rms, m1e = V("moment0"), V("moment1"), V("moment0_env"), V("moment0_rms"), V("moment1_env")
        tot = math.fsum(Q)
        def close(a, b, sc): return a == b or abs(a - b) <= 1e-9 * sc + 1e-300 or (a != a and b != b)
        for i in range(7):
            x = math.fsum(m0[i * n + k] * Q[k] for k in range(n)) / tot
            sc = max(abs(m0[i * n + k]) for k in range(n))
            if not close(env[i], x, sc): return "centroid[%d] is %r, the weighted average is %r" % (i, env[i], x)
        for i in range(7):
            for j in range(7):
                if i < 6 and j < 6:
                    t = [Q[k] * (m1[(i * 7 + j) * n + k] + (m0[i * n + k] - env[i]) * (m0[j * n + k] - env[j])) for k in range(n)]
                    x = math.fsum(t) / tot
                    sc = max(abs(m1[(i * 7 + j) * n + k]) + (abs(m0[i * n + k]) + abs(env[i])) * (abs(m0[j * n + k]) + abs(env[j])) for k in range(n))
                else: x, sc = 0.0, 1e-300
                if not close(m1e[i * 7 + j], x, sc): return "envelope[%d,%d] is %r, the weighted average is %r" % (i, j, m1e[i * 7 + j], x)
            if not close(rms[i], math.sqrt(m1e[i * 8]) if m1e[i * 8] >= 0 else float("nan"), abs(rms[i])): return "rms[%d] is %r but the envelope says %r" % (i, rms[i], m1e[i * 8])
    def same_beam(self, a, b):
        "C11: position, energies, phases, centroid and envelope are restored to within numerical precision"
        def V(x, k): return [struct.unpack(">d", bytes.fromhex(y))[0] for y in x[k]["v"]]
        worst = 0.0; key = None
        n = a["moment0"]["dim"][-1]
        sz = list(MSC)
        for q in (a, b):
            m0, m1 = V(q, "moment0"), V(q, "moment1")
            for i in range(6): sz[i] = max([sz[i]] + [z for z in (abs(m0[i * n + k]) for k in range(n)) if z == z] + [math.sqrt(abs(m1[i * 8 * n + k])) for k in range(n) if m1[i * 8 * n + k] == m1[i * 8 * n + k]])
        for k in a:
            if k in ("next_elem", "transmat", "last_caviphi0"): continue
            if a[k]["dim"] != b[k]["dim"]: return "undoing changed the shape of %s" % k
            x, y = V(a, k), V(b, k)
            n = 1
            if k in ("moment0", "moment1"): n = a[k]["dim"][-1]
            for i in range(len(x)):
                if x[i] == y[i] or (x[i] != x[i] and y[i] != y[i]): continue
                if k.startswith("moment0"): sc = sz[i // n]
                elif k.startswith("moment1"): sc = sz[(i // n) // 7] * sz[(i // n) % 7]
                elif "phis" in k: sc = max(1.0, abs(x[i]))
                else: sc = abs(x[i])
                d = abs(x[i] - y[i]) / (sc or 1.0)
                if self.undokey and not k.startswith("moment") and not d <= self.undo: return "going back did not restore %s[%d]: %r became %r" % (k, i, x[i], y[i])
                if not d <= worst: worst, key = d, "%s[%d]: %r became %r" % (k, i, x[i], y[i])
        self.C.count("undone_histories_compared")
        w = "known_undo_worst_error" if self.undokey else "undo_worst_error"
        if worst > self.C.cov.get(w, 0.0): self.C.cov[w] = worst
        if self.undokey and self.undo < worst <= LOOSE:
            self.C.violation(self.undokey, "%s (relative error %g)" % (key, worst), dict(lattice=self.lat.conf())); return
        if not worst <= self.undo: return "going back did not restore the beam: %s (relative error %g)" % (key, worst)
    def flush(self):
        if not self.buf: return
        allc = [c for b in self.buf for c in b[2]]
        try:
            res = self.drv.batch(allc)
        except vf.Crash as ex:
            n = len(ex.done); k = 0
            for hist, lat, cmds, judge in self.buf:
                if k + len(cmds) > n:
                    self.C.violation("crash", "%s in %s" % (ex, json.dumps(cmds[n - k])[:400]), dict(cmds=cmds[:n - k + 1]))
                    break
                k += len(cmds)
            self.buf = []; self.ncmds = 0
            return
        k = 0
        for hist, lat, cmds, judge in self.buf:
            R = res[k:k + len(cmds)]; k += len(cmds)
            for n, j in enumerate(judge):
                e = None
                if cmds[n]["op"] == "oracle" and R[n].get("st", R[n]).get("fin") is False:
                    self.C.count("behaviours_cut_short_beam_lost"); break      # a fresh machine loses this beam (no finite energy)
                if j:
                    try: e = j(R[n], R)
                    except (KeyError, TypeError, IndexError) as x:
                        e = "answer %s (%r)" % (json.dumps(R[n])[:300], x)
                if e:
                    self.C.violation("machine", "%s; after %s" % (e, json.dumps([s["a"] for s in hist])[:500]), dict(problem=e, lattice=lat.conf(), calls=[s["a"] for s in hist], cmds=cmds[:n + 1]))
                    break
            self.C.traces(1)
            self.C.count("steps_replayed", len(hist))
            if len(self.C.viol) > 5: break
        self.buf = []; self.ncmds = 0
