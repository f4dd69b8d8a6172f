"""C23: equivalent lattices of guiding elements (spec/Optics.tla) give the same beam; conservation laws.  C24: the same with cavities."""
import os, sys, json, math, random, struct, copy, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mach
import numpy as np

U = 0.125                      # one unit of length, m
DEG = math.pi / 180
C0, ES = 2.99792458e8, 931.49432e6
P0 = dict(k="D", n=0, s=0, t=0, e=0, f=0, r=0, x=0, y=0, v=0, m=1, c=[])
def pc(k, n=0, s=0, **kw):
    d = dict(P0, k=k, n=n, s=s); d.update(kw); return d

class Scale:
    "what the units of the specification are in one interpretation"
    def __init__(s, rng, beam, thick=False):
        s.q, s.b, s.ve, s.x3 = rng.choice([1.5, 4.0, 9.0]), rng.choice([0.4, 1.5, 3.0]), rng.choice([60.0, 250.0]), rng.choice([3.0, 20.0])
        s.phi, s.K, s.edge, s.hphi, s.kick = rng.choice([1.0, 3.0, 7.0]), rng.choice([0.05, 0.7, 2.0]), rng.choice([2.0, 6.0]), rng.choice([2.0, 5.0]), rng.choice([1e-4, 2e-3])
        s.rad, s.off, s.spher, s.frin = 0.05, rng.choice([5e-4, 3e-3]), rng.choice([0.0, 1.0, 0.5]), rng.choice([0.05, 0.4])
        s.thick = thick
        s.scl, s.dir = rng.choice([0.2, 0.35]), None
        s.f = 1.0                   # all fields times this
        ek = beam["IonEk"]; g = 1 + ek / beam["IonEs"]
        s.bg = math.sqrt(g * g - 1); s.beta = s.bg / g
        s.z = beam.get("IonZ", beam["IonChargeStates"][0])
        s.ecpi = s.z * C0 / math.sqrt((ek + beam["IonEs"]) ** 2 - beam["IonEs"] ** 2)

def element(p, S, i):
    k, L = p["k"], p["n"] * U
    d = {"name": "e%d" % i}
    if p["r"]: d["roll"] = p["r"] * 15 * DEG
    if p["x"]: d["dx"] = p["x"] * S.off
    if p["y"]: d["dy"] = p["y"] * S.off
    if k == "C": return cavity(p, S, dict(d, type="rfcavity", L=L))
    if k == "M": return dict(d, type="marker")
    if k == "P": return dict(d, type="bpm")
    if k == "R": return dict(d, type="orbtrim", theta_x=0.0, theta_y=0.0, xyrotate=15.0 * p["s"])
    if k == "K":
        d["type"] = "orbtrim"
        if p["e"]: d["xyrotate"] = 15.0 * p["e"]
        if p["v"] == 0: d.update(theta_x=p["s"] * S.kick, theta_y=p["t"] * S.kick)
        else: d.update(realpara=1.0, tm_xkick=p["s"] * S.kick / S.ecpi, tm_ykick=p["t"] * S.kick / S.ecpi, theta_x=0.3)
        return d
    d["L"] = L
    if k == "D": return dict(d, type="drift")
    if k == "Q": return dict(d, type="quadrupole", B2=p["s"] * S.q * S.f)
    if k == "S": return dict(d, type="solenoid", B=p["s"] * S.b * S.f)
    if k == "E": return dict(d, type="equad", V=p["s"] * S.ve * S.f * (4 if p["v"] else 1), radius=S.rad * (2 if p["v"] else 1))
    if k == "X": return dict(d, type="sextupole", B3=p["s"] * S.x3 * S.f, step=float(p["m"]), thinlens=0.0 if S.thick else 1.0, dstkick=1.0 - p["v"])
    if k == "B":
        d.update(type="sbend", phi=p["s"] * p["n"] * S.phi, phi1=p["e"] * S.edge, phi2=p["f"] * S.edge, K=p["t"] * S.K, bg=S.bg)
        if p["v"]: d["HdipoleFitMode"] = 0.0
        else: d["bg"] = 0.3
        return d
    if k == "H":
        d.update(type="edipole", phi=p["s"] * p["n"] * S.hphi, fringe_x=p["e"] * S.frin, fringe_y=-0.5 * p["e"] * S.frin, ver=float(p["t"]), spher=S.spher if p["m"] == 1 else 1 - S.spher)
        if p["v"]: d.update(HdipoleFitMode=0.0, beta=S.beta)
        else: d["beta"] = 0.2
        return d
    typ, unit = {"QP": ("quadrupole", S.q), "SP": ("solenoid", S.b), "EP": ("equad", S.ve / S.rad ** 2)}[k]
    cv = [float(x) * S.f for x in p["c"] for _ in range(p["m"])]
    d.update(type=typ)
    if p["v"] == 0: d.update(ncurve=1.0, curve0=cv, scl_fac0=unit)
    elif p["v"] == 1: d.update(ncurve=2.0, curve0=[x * 0.25 + 1 for x in cv], curve1=[x * -0.5 + 2 for x in cv], scl_fac0=2 * unit, scl_fac1=-unit)
    else: d.update(ncurve=1.0, curve0=[5.0, -7.0] + cv + [9.0], use_range=[2.0, 2.0 + len(cv)], scl_fac0=unit)
    return d

# ------------------------------------------------------------------ cavities
CAVS = [("0.041QWR", 80.5e6), ("0.085QWR", 80.5e6), ("0.29HWR", 322e6), ("0.53HWR", 322e6), ("thinlenlon_41.lat", 80.5e6), ("thinlenlon_41_p.lat", 80.5e6), ("thinlenlon_29_p.lat", 322e6), ("thinlenlon_85.lat", 80.5e6)]
EK = [(0.5e6, 0.9e6, 2e6), (3e6, 8e6, 15e6), (18e6, 35e6, 50e6), (60e6, 110e6, 150e6), (0.5e6, 0.9e6, 2e6), (0.6e6, 2e6), (18e6, 35e6, 50e6), (3e6, 8e6, 15e6)]
FAM = [[0, 4, 5], [1, 7], [2, 6], [3]]         # which cavities go together
def cavity(p, S, d):
    typ, f = CAVS[p["v"]]
    d.update(f=f, phi=15.0 * p["t"], scl_fac=p["s"] * S.scl * S.f, MpoleLevel=str(p["e"]), syncflag=0.0 if p["m"] else 1.0, Eng_Data_Dir=mach.DATA)
    if p["f"]: d["EmitGrowth"] = 1.0
    if p["c"]: d.update(Eng_Data_Dir=os.path.join(S.dir, "w%d" % p["c"][0]))
    if p["v"] < 4: d["cavtype"] = typ
    else:
        d.update(cavtype="Generic", datafile=typ)
        if p["c"] == [3]: d["scl_fac"] /= 2
    return d
def rewrite(dir):
    "other ways to write the data files of cavities"
    import re
    QUAD, DIP = ("EQuad", "HQuad", "HMono"), ("EDipole", "HDipole")
    for h in (1, 2, 4, 5):      # built-in cavities
        gone = QUAD if h == 4 else QUAD + DIP
        for n in (41, 85, 29, 53):
            to = os.path.join(dir, "w%d" % h, "Multipole%d" % n); os.makedirs(to, exist_ok=True)
            for f in ("axisData_%d.txt" % n, "Multipole%d/CaviMlp_%d.txt" % (n, n)): shutil.copy(os.path.join(mach.DATA, f), os.path.join(dir, "w%d" % h, f))
            out, odd = [], 0
            for l in open(os.path.join(mach.DATA, "Multipole%d/thinlenlon_%d.txt" % (n, n))):
                u = l.split()
                if u and not u[0].startswith("%"):
                    if h == 1 and u[0] == "drift":
                        L = float(u[2]); out += ["drift %s %r 0.015\n" % (u[1], L * 0.375), " drift %s %r 0.015 \n" % (u[1], L * 0.625)]; continue
                    odd += 1
                    if h == 2 and odd % 2: out.append("%s none 0.0 0.015 0.0\n" % ("EFocus2", "EDipole" if n > 60 or n == 41 else "EQuad", "drift", "HMono", "EQuad")[odd // 2 % 5])
                    if h >= 4 and u[0] in gone: u[4] = "0.0"; l = " ".join(u) + "\n"
                out.append(l)
            open(os.path.join(to, "thinlenlon_%d.txt" % n), "w").write("".join(out))
    for h in (1, 2, 3, 4, 5, 6):
        os.makedirs(os.path.join(dir, "w%d" % h), exist_ok=True)
        for typ, _ in CAVS[4:]:
            t = open(os.path.join(mach.DATA, typ)).read()
            line = re.search(r"LINE\s*=\s*\(([^)]*)\)", t); names = [x.strip() for x in line.group(1).split(",")]
            if h == 1:          # every drift cut in two
                def cut(m):
                    L = float(m.group(2)); return "%sa: drift, L = %r;\n%sb: drift, L = %r;" % (m.group(1), L * 0.375, m.group(1), L * 0.625)
                t = re.sub(r"(\w+)\s*:\s*drift\s*,\s*L\s*=\s*([-+0-9.eE]+)\s*;", cut, t)
                drifts = set(re.findall(r"(\w+)a: drift", t))
                names = [y for x in names for y in ([x + "a", x + "b"] if x in drifts else [x])]
            elif h == 2:        # elements that do nothing
                a = "attr = [%s]" % ", ".join(["0.5"] * 20)
                t = t.replace("cell", "none0: EFocus, L = 0.0, V0 = 0.0, %s;\nnone1: EDipole, L = 0.0, V0 = 0.0, %s;\nnone2: drift, L = 0.0;\nnone3: HMono, L = 0.0, V0 = 0.0, %s;\nnone4: HQuad, L = 0.0, V0 = 0.0, %s;\ncell" % (a, a, a, a), 1)
                names = [y for i, x in enumerate(names) for y in (["none%d" % (i % 5)] if i % 2 else []) + [x]] + ["none0", "none2"]
            elif h == 6:        # twice the radius in which the focusing fields are given
                t = re.sub(r"(:\s*(?:EFocus|EQuad|HQuad|HMono)\s*,\s*L\s*=\s*[-+0-9.eE]+\s*,\s*V0\s*=\s*)([-+0-9.eE]+)", lambda m: m.group(1) + repr(2 * float(m.group(2))), t)
                t, k = re.subn(r"(?m)^(\s*Rm\s*=\s*)([-+0-9.eE]+)", lambda m: m.group(1) + repr(2 * float(m.group(2))), t)
                if k != 1: raise vf.CheckError("Rm of %s" % typ)
            elif h >= 4:        # without multipoles above some order
                t, k = re.subn(r"(:\s*(?:%s)\s*,\s*L\s*=\s*[-+0-9.eE]+\s*,\s*V0\s*=\s*)[-+0-9.eE]+" % "|".join(QUAD if h == 4 else QUAD + DIP), r"\g<1>0.0", t)
                if not k: raise vf.CheckError("multipoles of %s" % typ)
            else:               # twice the field, for half the scale
                t = re.sub(r"V0\s*=\s*([-+0-9.eE]+)", lambda m: "V0 = %r" % (2 * float(m.group(1))), t)
                t = t.replace("RefNorm = 33.0/238.0", "RefNorm = 16.5/238.0")
                ez = re.search(r"Ez\s*=\s*\[([^]]*)\]", t); v = [x.strip() for x in ez.group(1).split(",")]
                if len(v) % 2: raise vf.CheckError("field of %s" % typ)
                t = t[:ez.start()] + "Ez = [%s]" % ", ".join(repr(2 * float(x)) if i % 2 else x for i, x in enumerate(v)) + t[ez.end():]
            line = re.search(r"LINE\s*=\s*\(([^)]*)\)", t)
            t = t[:line.start()] + "LINE = (%s)" % ", ".join(names) + t[line.end():]
            open(os.path.join(dir, "w%d" % h, typ), "w").write(t)

def lattice(w, S): return {"sim_type": "MomentMatrix", "elements": {"c": [element(p, S, i) for i, p in enumerate(w)]}}

def hexd(a): return np.array([struct.unpack(">d", bytes.fromhex(x))[0] for x in a])
class Beam:
    def __init__(b, A):
        b.a = {k: hexd(v) for k, v in A.items()}
        n = b.n = len(b.a["IonZ"])
        b.m0, b.m1, b.T = b.a["moment0"].reshape(7, n).T, b.a["moment1"].reshape(7, 7, n).transpose(2, 0, 1), b.a["transmat"].reshape(7, 7, n).transpose(2, 0, 1)
    def sig(b, k): return np.sqrt(np.abs(np.diagonal(b.m1[k])[:6]))
SCAL = ["ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_IonEk", "ref_SampleFreq", "IonZ", "IonQ", "IonEs", "IonEk", "SampleFreq"]
OPT = 3e-9
def close(a, b, tol): return np.all(np.abs(a - b) <= tol)
def differ(a, b, sx=1, sy=1, phis=True, ks=None, scal=True, ek=0.0, OPT=OPT):
    """how beam b differs from beam a (mirrored by sx, sy); None if it does not.  ks: charge states of a that b has"""
    ks = range(a.n) if ks is None else ks
    if b.n != len(ks): return "number of charge states"
    mir = np.array([sx, sx, sy, sy, 1, 1, 1.0])
    for j, k in enumerate(ks):
        if not (np.all(np.isfinite(b.m0[j])) and np.all(np.isfinite(b.m1[j]))): return "not a number: centroid %s" % b.m0[j].tolist()
        s = np.append(np.maximum(a.sig(k), b.sig(j)), 0.0) + 1e-30
        t0 = np.maximum(np.abs(a.m0[k]), np.abs(b.m0[j])) + s
        # coordinates with length are large where the beam is long: the scale of the whole plane counts
        for q in (0, 2): t0[q] += 1e3 * t0[q + 1] * 0.1
        d0 = np.abs(b.m0[j] - mir * a.m0[k])
        if np.any(d0[:6] > OPT * t0[:6]): return "centroid of charge state %d: %s, not %s" % (k, b.m0[j].tolist(), (mir * a.m0[k]).tolist())
        d1 = np.abs(b.m1[j] - np.outer(mir, mir) * a.m1[k])
        if np.any(d1 > 10 * OPT * np.outer(t0, t0) + 1e-25): return "envelope of charge state %d: %s, not %s" % (k, b.m1[j].tolist(), (np.outer(mir, mir) * a.m1[k]).tolist())
    for nme in ["ref_phis", "pos"] + (["phis"] if phis else []):
        x, y = a.a[nme], b.a[nme]
        if nme == "phis": x = x[list(ks)]
        if not close(x, y, 1e-10 * (np.abs(x) + 1)): return "%s: %s, not %s" % (nme, y.tolist(), x.tolist())
    if scal:
        for nme in SCAL:
            x = a.a[nme][list(ks)] if not nme.startswith("ref_") else a.a[nme]
            if ek and nme.endswith("IonEk"):
                if not close(x, b.a[nme], ek * np.abs(x)): return "%s: %s, not %s" % (nme, b.a[nme].tolist(), x.tolist())
            elif not np.array_equal(x, b.a[nme]): return "%s: %s, not %s" % (nme, b.a[nme].tolist(), x.tolist())
    return None

def conserved(w, S, st, symp=True):
    "laws of every single element of word w; st: beams before and after each"
    for i, p in enumerate(w):
        a, b = st[i], st[i + 1]
        tag = "after %s (element %d)" % (p["k"], i)
        for nme in SCAL:
            if not np.array_equal(a.a[nme], b.a[nme]): return "%s: %s changed from %s to %s" % (tag, nme, a.a[nme].tolist(), b.a[nme].tolist())
        L = p["n"] * U
        if not close(b.a["pos"], a.a["pos"] + L, 1e-12 * (1 + abs(a.a["pos"]))): return tag + ": position"
        want = a.a["ref_phis"] + a.a["ref_SampleIonK"] * L * 1e3
        if not close(b.a["ref_phis"], want, 1e-11 * (1 + np.abs(want))): return "%s: phase of the reference %s, not %s" % (tag, b.a["ref_phis"], want)
        for k in range(a.n):
            want = a.a["phis"][k] + a.a["SampleIonK"][k] * L * 1e3
            if p["k"] == "B": want += b.m0[k][4] - a.m0[k][4]
            if not close(b.a["phis"][k], want, 1e-10 * (1 + np.abs(want))): return "%s: phase of charge state %d is %.17g, not %.17g" % (tag, k, b.a["phis"][k], want)
            T = b.T[k]
            if not np.all(np.isfinite(T)): return tag + ": transfer matrix is not finite: %s" % T.tolist()
            sc = np.abs(T) @ np.abs(a.m0[k])
            if not close(b.m0[k], T @ a.m0[k], 1e-10 * (sc + 1e-5)): return "%s: centroid %s is not what the reported matrix makes of it, %s" % (tag, b.m0[k].tolist(), (T @ a.m0[k]).tolist())
            s1 = np.abs(T) @ np.abs(a.m1[k]) @ np.abs(T.T)
            if not close(b.m1[k], T @ a.m1[k] @ T.T, 1e-10 * (s1 + 1e-10)): return "%s: envelope is not what the reported matrix makes of it" % tag
            if np.any(T[6] != [0, 0, 0, 0, 0, 0, 1]): return "%s: last row of the matrix %s" % (tag, T[6].tolist())
            if symp and p["k"] not in "BH" and not (p["k"] == "X" and S.thick):
                J = np.zeros((4, 4)); J[0, 1] = J[2, 3] = 1; J -= J.T
                t4 = T[:4, :4]; q = np.abs(t4).T @ np.abs(J) @ np.abs(t4)
                if np.any(np.abs(t4.T @ J @ t4 - J) > 1e-10 * (q + 1)): return "%s: transverse motion is not symplectic: %s" % (tag, t4.tolist())
            dt = np.linalg.det(T)
            cond = np.prod(np.maximum(1, np.abs(T[:4, :4]).max()) ** 0.5)
            if p["k"] == "X" and S.thick and p["s"]: continue      # recorded finding, see thick()
            if abs(dt - 1) > 1e-8 * cond: return "%s: determinant of the matrix %.12g" % (tag, dt)
    return None

def beams(rng, ref=False):
    "configurations of initial beams"
    n = 1 if ref else rng.choice([1, 2, 3, 5])
    z0 = rng.randint(20, 60)
    zs = [z0] if ref else rng.sample(range(z0 - 6, z0 + 7), n)
    b = mach.beam(rng.choice([0.3e6, 0.5e6, 5e6, 17e6, 150e6]), zs, [rng.randint(1, 900) * 1.0 for _ in zs])
    A = lambda s: (np.array(s).reshape(7, 7))
    for i in range(n):
        D = np.diag([rng.uniform(0.3, 2) for _ in range(6)] + [1.0])
        b["initial%d" % i] = (D @ A(mach.S0) @ D).flatten().tolist()
        b["moment0%d" % i] = [rng.uniform(-3, 3), rng.uniform(-2e-3, 2e-3), rng.uniform(-3, 3), rng.uniform(-2e-3, 2e-3), rng.uniform(-0.2, 0.2), 0.0 if ref else rng.choice([0.0, rng.uniform(-4e-3, 4e-3)]), 1.0]
    if not ref and rng.random() < 0.5: b["IonZ"], b["IonQ"] = (z0 + 0.5) / 238, 3.0
    if rng.random() < 0.3: b["SampleFreq"] = rng.choice([4.025e7, 1.61e8])
    return b
def mirrored(b, sx, sy):
    b = copy.deepcopy(b); m = np.array([sx, sx, sy, sy, 1, 1, 1.0])
    for i in range(len(b["IonChargeStates"])):
        b["moment0%d" % i] = (m * b["moment0%d" % i]).tolist()
        b["initial%d" % i] = (np.outer(m, m) * np.array(b["initial%d" % i]).reshape(7, 7)).flatten().tolist()
    return b
def alone(b, k):
    "only charge state k, with the same reference"
    c = dict(b, cstate=float(k))
    c.setdefault("IonZ", b["IonChargeStates"][0]); c.setdefault("IonQ", b["NCharge"][0]); return c

# ------------------------------------------------------------------ words to start from
def piece(rng, kinds="DQSEXBHKRM", off=True):
    k = rng.choice(kinds); n = rng.randint(1, 4); s = rng.choice([-2, -1, 1, 1, 2, 0])
    d = dict(k=k, n=n, s=s)
    if k in "QSE" and rng.random() < 0.3:
        d["k"] = k + "P"; d["s"] = 0; d["c"] = [rng.choice([-2, -1, 0, 1, 2]) for _ in range(n)]; d["m"] = rng.choice([1, 1, 2]); d["v"] = rng.choice([0, 0, 1, 2])
    if k == "X": d["m"] = rng.choice([x for x in (1, 2, 3, 4) if n % x == 0]); d["v"] = rng.choice([0, 1])
    if k == "B": d.update(t=rng.choice([-1, 0, 0, 1]), e=rng.choice([0, 0, 1, -1]), f=rng.choice([0, 0, 2, -1]), v=rng.choice([0, 1]))
    if k == "H": d.update(s=s or 1, t=rng.choice([0, 1]), e=rng.choice([0, 0, 1, -1]), v=rng.choice([0, 1]), m=rng.choice([1, 2]))
    if k == "K": d.update(n=0, t=rng.choice([-1, 0, 1]), e=rng.choice([0, 0, 0, 6, -2]), v=rng.choice([0, 0, 1]))
    if k == "R": d.update(n=0, s=rng.choice([6, -6, 12, 3, 1, -8]))
    if k == "D": d["s"] = 0
    if k in "MP": d.update(n=0, s=0)
    if k in "QSEXBHK" and rng.random() < 0.5: d["r"] = rng.choice([6, -6, 12, 1, -5, 3, 8, 2])
    if off and k in "QSEXBHK" and rng.random() < 0.3: d["x"], d["y"] = rng.choice([(1, 0), (0, -1), (2, 1)])
    return pc(d.pop("k"), d.pop("n"), d.pop("s"), **d)
INS = [[pc("M")], [pc("P")], [pc("K")], [pc("D")], [pc("Q", 0, 1)], [pc("S", 0, 2)], [pc("E", 0, -1)], [pc("X", 0, 1, m=2)], [pc("B", 0, 1, e=1)], [pc("H", 0, 1, m=1)],
       [pc("K", 0, 1, t=2), pc("K", 0, -1, t=-2)], [pc("K", 0, 0, e=24)]]
LAWS = ["cut", "merge", "profile", "null", "insert", "remove", "describe", "roll"]
def singles(rng):
    "one piece of every kind and of every interesting setting"
    W = []
    for s in (-1, 0, 1, 2):
        for k in "QSE":
            W += [[pc(k, 3, s)], [pc(k, 2, s, r=rng.choice([1, 6, -9]))], [pc(k, 2, s, x=1, y=-2)], [pc(k + "P", 3, 0, c=[s, 1, -1], m=rng.choice([1, 2]))]]
        for m in (1, 2): W += [[pc("X", 2, s, m=m, v=v)] for v in (0, 1)]
        for t in (-1, 0, 1): W += [[pc("B", 3, s, t=t, e=e, f=f)] for e, f in ((0, 0), (1, -1))] + [[pc("B", 2, s, t=t, r=rng.choice([2, 6, 12]))]]
        if s:
            for m in (1, 2): W += [[pc("H", 3, s, m=m)], [pc("H", 2, s, t=1, m=m, e=1)], [pc("H", 2, s, m=m, r=rng.choice([1, 6, 12]))]]
        W += [[pc("K", 0, s, t=t, e=e)] for t, e in ((1, 0), (0, 6), (-1, 1))]
    W += [[pc("D", 4)], [pc("R", 0, 6), pc("D", 1)], [pc("Q", 2, 1), pc("R", 0, 6), pc("S", 1, 1)]]
    return W

# ------------------------------------------------------------------ replay
def short(w): return [{k: v for k, v in p.items() if v != P0[k] or k == "k"} for p in w]
class Runner:
    def __init__(s, C, exe): s.C, s.D, s.n = C, vf.Driver(exe), 0
    def run(s, jobs):
        "jobs: (conf, beam, steps)"
        R = s.D.batch([dict(op="optics", conf=c, beam=b, steps=st) for c, b, st in jobs])
        s.n += len(jobs)
        return R
def end(r): return Beam(r["end"]) if "end" in r else Beam(r["steps"][-1])

def replay(C, exe, outs, rng, name, thick=False):
    "outs: printed by TLC.  Groups by the lattice that was started from"
    G = {}
    for o in outs: G.setdefault(json.dumps(o["a"]), []).append(o)
    X = Runner(C, exe)
    def bad(what, w, o, S, b):
        C.violation("optics:" + what.split(":")[0][:40], "%s: lattice %s against %s: %s" % (name, short(w), short(o), what), dict(a=w, b=o, scale=vars(S), beam=b))
    for key, os_ in G.items():
        if C.viol and len(C.viol) > 3: break
        w0 = json.loads(key)
        for w in [w0] + [o["b"] for o in os_] + [o[m] for o in os_ for m in "xyz"]:
            for p in w:
                for q in P0: p.setdefault(q, P0[q])
        for isref in (False, True):
            sel = [o for o in os_ if isref or o["ref"] == "any"] if not isref else [o for o in os_ if o["ref"] == "ref" or rng.random() < 0.1]
            if not sel: continue
            b = beams(rng, isref); S = Scale(rng, b, thick)
            jobs = [(lattice(w0, S), b, True)]; what = [("base", w0, None)]
            for o in sel:
                jobs.append((lattice(o["b"], S), b, rng.random() < 0.05)); what.append(("same", o["b"], o))
                if o["x"]:
                    jobs.append((lattice(o["x"], S), mirrored(b, -1, 1), False)); what.append(("mirx", o["x"], o))
                    jobs.append((lattice(o["y"], S), mirrored(b, 1, -1), False)); what.append(("miry", o["y"], o))
                if o["z"] and (len(o["z"]) < 3 or rng.random() < 0.3): jobs.append((lattice(o["z"], S), b, True)); what.append(("back", o["z"], o))
            nz = len(b["IonChargeStates"])
            for k in range(nz):
                jobs.append((lattice(w0, S), alone(b, k), False)); what.append(("alone", w0, k))
            # a field acts on each charge state by its own rigidity: which one is the reference does not matter
            if all(p["k"] not in "BH" and (p["k"] != "K" or p["s"] == p["t"] == 0) for p in w0):
                for k in range(nz):
                    jobs.append((lattice(w0, S), dict(alone(b, k), IonZ=b["IonChargeStates"][k], IonQ=b["NCharge"][k]), False)); what.append(("own", w0, k))
            # energy and phase: later arrival of slower particles
            slip = all(p["k"] not in "BH" for p in w0)
            if slip:
                for sg in (0, 1, -1):
                    b3 = alone(b, 0); b3["moment00"] = b["moment00"][:5] + [sg * b["IonEk"] * 1e-10, 1.0]
                    jobs.append((lattice(w0, S), b3, True)); what.append(("slip", w0, sg))
            # charge doubled, fields halved: the same beam
            b2 = dict(b, IonChargeStates=[2 * z for z in b["IonChargeStates"]]); S2 = copy.copy(S); S2.f = 0.5; S2.ecpi = 2 * S.ecpi
            if "IonZ" in b: b2["IonZ"] = 2 * b["IonZ"]
            jobs.append((lattice(w0, S2), b2, False)); what.append(("rigid", w0, None))
            fs = rng.choice([2.0, 0.5]); jobs.append((lattice(w0, S), freq(b, fs), False)); what.append(("freq", w0, fs))
            R = X.run(jobs)
            for (kind, w, o), r in zip(what, R):
                if not r["ok"]: bad("refused: %s" % r["msg"], w0, w, S, b); break
                if "steps" in r:
                    e = conserved(w, S, [Beam(x) for x in r["steps"]])
                    if e: bad(e, w0, w, S, b); break
                if kind == "base": base = end(r); T0 = mats(r); continue
                B = end(r)
                if kind == "back":
                    e = undone(T0, mats(r), B)
                    if e: bad("back: " + e, w0, w, S, b); break
                    C.cov["traces_validated_against_impl"] += 1
                    continue
                if kind == "slip":
                    if o == 0: T45 = sum(Beam(x).T[0][4, 5] for x in r["steps"][1:]); continue
                    if o == 1: plus = B.a["phis"][0]; continue
                    got, want = (plus - B.a["phis"][0]) / 2, T45 * b["IonEk"] * 1e-10
                    e = None if abs(got - want) <= 1e-6 * abs(want) + 1e-14 * abs(plus) + 1e-13 else "phase advance changes with energy by %.17g, by the matrix %.17g" % (got, want)
                    if e: bad("slip: " + e, w0, w, S, b); break
                    C.cov["traces_validated_against_impl"] += 1
                    continue
                if kind == "same": e = differ(base, B, phis=o["ref"] == "any")
                elif kind == "mirx": e = differ(base, B, -1, 1, phis=o["ref"] == "any")
                elif kind == "miry": e = differ(base, B, 1, -1, phis=o["ref"] == "any")
                elif kind == "alone": e = differ(base, B, ks=[o])
                elif kind == "freq": e = differ(base, unfreq(B, o))
                elif kind == "own": e = differ(base, B, ks=[o], scal=False)
                else: e = differ(base, B, scal=False)
                if e: bad(("%s: " % kind if kind != "same" else "") + e, w0, w, S, b); break
                C.cov["traces_validated_against_impl"] += 1
    C.cov["runs"] = C.cov.get("runs", 0) + X.n

def mats(r):
    "per charge state: matrix of the lattice, and that of the absolute values"
    st = [Beam(x) for x in r["steps"][1:]]; n = Beam(r["steps"][0]).n
    M = []
    for k in range(n):
        T = Q = np.eye(7)
        for q in st: T, Q = q.T[k] @ T, np.abs(q.T[k]) @ Q
        M.append((T, Q))
    return M
V = np.diag([1, -1, 1, -1, -1, 1, 1.0])
def undone(M, Z, B):
    "the lattice the other way round undoes the lattice"
    for k, ((T, Q), (U, P)) in enumerate(zip(M, Z)):
        un = np.array([1, 1e-3, 1, 1e-3, 1, 1e-3, 1])
        D = np.abs(V @ U @ V @ T - np.eye(7)); sc = P @ Q
        if np.any(D > 1e-9 * sc + 1e-9 * np.outer(un, 1 / un) * (1 + (sc * un / un[:, None]).max())): return "charge state %d: %s" % (k, D.tolist())
    return None
def thick(C, exe, rng):
    "the recorded finding: a thick sextupole is not the turned one when it is turned by a third, and changes the volume"
    b = beams(rng, True); b["moment00"][0:4] = [1.0, 1e-3, 2.0, -1e-3]; S = Scale(rng, b, True); S.x3 = 20.0
    w = [[pc("X", 2, 1)], [pc("X", 2, 1, r=8)]]
    R = Runner(C, exe).run([(lattice(x, S), b, True) for x in w])
    if not all(r["ok"] for r in R): C.violation("optics:refused", "thick sextupole refused: %s" % R, w); return
    d = [np.linalg.det(Beam(r["steps"][1]).T[0]) - 1 for r in R]
    e = differ(end(R[0]), end(R[1]))
    if e or max(map(abs, d)) > 1e-8: C.violation("sextupole-thick", "thick sextupole: determinant %s, turned by a third: %s" % (d, e), w)
    for sg in (1, -1):              # on the diagonals the distance is right: there the matrix must be, too
        for B3 in (20.0, -20.0):
            for a in (1.5, -0.4):
                S.x3 = B3; b["moment00"][0:4] = [a, 0.0, sg * a, 0.0]
                r = Runner(C, exe).run([(lattice(w[0], S), b, True)])[0]
                T = Beam(r["steps"][1]).T[0]
                if abs(np.linalg.det(T) - 1) > 1e-8: C.violation("optics:thick", "thick sextupole, beam at %s: determinant %.12g" % (b["moment00"][0:4], np.linalg.det(T)), w)
                J = np.zeros((4, 4)); J[0, 1] = J[2, 3] = 1; J -= J.T
                if np.abs(T[:4, :4].T @ J @ T[:4, :4] - J).max() > 1e-8: C.violation("optics:thick", "thick sextupole, beam at %s: not symplectic: %s" % (b["moment00"][0:4], T[:4, :4].tolist()), w)
    C.cov["traces_validated_against_impl"] += 2

def tilted(C, exe, outs, rng, name):
    "pitch and yaw: conservation, independence, mirrors (outs: words and their mirror images)"
    X = Runner(C, exe)
    for o in outs:
        w = o["b"]; b = beams(rng); S = Scale(rng, b)
        t = [(rng.choice([0, 1e-3, -4e-3]), rng.choice([0, 2e-3, -1e-3])) for _ in w]
        def lat(u, sp, sy, S=S):
            L = lattice(u, S)
            for e, (p, y) in zip(L["elements"]["c"], t):
                if e["type"] not in ("marker", "bpm", "drift"): e["pitch"], e["yaw"] = sp * p, sy * y
            return L
        b2 = dict(b, IonChargeStates=[2 * z for z in b["IonChargeStates"]]); S2 = copy.copy(S); S2.f = 0.5; S2.ecpi = 2 * S.ecpi
        if "IonZ" in b: b2["IonZ"] = 2 * b["IonZ"]
        R = X.run([(lat(w, 1, 1), b, True), (lat(o["x"], 1, -1), mirrored(b, -1, 1), False), (lat(o["y"], -1, 1), mirrored(b, 1, -1), False), (lat(w, 1, 1, S2), b2, False)]
                  + [(lat(w, 1, 1), alone(b, k), False) for k in range(len(b["IonChargeStates"]))])
        def bad(what): C.violation("optics:" + what.split(":")[0][:40], "%s: lattice %s with pitch, yaw %s: %s" % (name, short(w), t, what), dict(a=w, tilt=t, scale=vars(S), beam=b))
        if not all(r["ok"] for r in R): bad("refused: %s" % [r.get("msg") for r in R]); return
        base = end(R[0])
        e = conserved(w, S, [Beam(x) for x in R[0]["steps"]], False) or differ(base, end(R[1]), -1, 1) or differ(base, end(R[2]), 1, -1) or differ(base, end(R[3]), scal=False)
        for k, r in enumerate(R[4:]): e = e or differ(base, end(r), ks=[k])
        if e: bad(e); return
        C.cov["traces_validated_against_impl"] += len(R)

def backfront(p):
    "the element passed from its other end"
    q = copy.deepcopy(p); q["c"] = q["c"][::-1]
    if p["k"] == "B": q["e"], q["f"] = p["f"], p["e"]
    if p["k"] == "S": q["s"] = -p["s"]
    if p["k"] == "SP": q["c"] = [-x for x in q["c"]]
    return q
def axis(C, exe, rng, n):
    """a tilted element acts on positions and directions as seen from its own axis, turned about its middle;
    an element passed from its other end undoes itself, momenta and phases reversed"""
    X = Runner(C, exe); TH = 1e-7
    for _ in range(n):
        p = piece(rng, "QSEBH" if rng.random() < 0.7 else "D")
        while p["k"] in "R": p = piece(rng, "QSEBH")
        if p["k"] == "D": p = pc(*rng.choice([("QP", 3), ("SP", 3), ("EP", 3)])); p["c"] = [rng.randint(-2, 2) for _ in range(3)]; p["r"] = rng.choice([0, 1, 6]); p["x"] = rng.choice([0, 1])
        if p["k"] == "B" and p["n"] == 0 or p["k"] == "H" and not p["s"] * p["n"]: continue
        b = beams(rng); S = Scale(rng, b)
        for k in range(len(b["IonChargeStates"])): b["moment0%d" % k][4] = rng.uniform(-1, 1)
        a = [rng.choice([0, TH, -2 * TH]), rng.choice([0, TH, 3 * TH])]
        def lat(p, a):
            L = lattice([p], S); L["elements"]["c"][0].update(pitch=a[0], yaw=a[1]); return L
        R = X.run([(lat(p, (0.0, 0.0)), b, True), (lat(p, a), b, True), (lat(backfront(p), [-a[0], -a[1]]), b, True)])
        def bad(what): C.violation("optics:" + what.split(":")[0][:40], "axis: lattice %s with pitch, yaw %s: %s" % (short([p]), a, what), dict(a=[p], tilt=a, scale=vars(S), beam=b))
        if not all(r["ok"] for r in R): bad("refused: %s" % [r.get("msg") for r in R]); return
        A, E, F, G = Beam(R[0]["steps"][0]), Beam(R[0]["steps"][1]), Beam(R[1]["steps"][1]), Beam(R[2]["steps"][1])
        O = np.array([[0, 0, a[1]], [0, 0, a[0]], [-a[1], -a[0], 0]]); L = p["n"] * U * 1e3
        for k in range(A.n):
            g = 1 + A.a["IonEk"][k] / A.a["IonEs"][k]; de = (1 - 1 / g ** 2) * g * A.a["IonEs"][k] * 1e-6; K = A.a["SampleIonK"][k]
            def turn(m, O, mid):
                r, q = np.array([m[0], m[2], -m[4] / K + mid]), np.array([m[1], m[3], 1 + m[5] / de])
                r, q = r + O @ r, q + O @ q
                return np.array([r[0], q[0], r[1], q[1], -K * (r[2] - mid), (q[2] - 1) * de, 1.0])
            want = turn(E.T[k] @ turn(A.m0[k], O, -L / 2), -O, L / 2)
            amp = 1 + np.abs(E.T[k]).max() * np.array([1, 1e-3, 1, 1e-3, K, 1e-3 * de, 1])
            tol = 30 * TH * TH * (L + 10) * amp + 1e-12 * (np.abs(E.T[k]) @ np.abs(A.m0[k]) + 1e-3)
            ks = [0, 1, 2, 3, 5] if p["k"] == "B" else [0, 1, 2, 3, 4, 5]
            if np.any((np.abs(F.m0[k] - want) > tol)[ks]): bad("tilt: charge state %d at %s, not %s; straight %s" % (k, F.m0[k].tolist(), want.tolist(), E.m0[k].tolist())); return
            I = V @ np.linalg.inv(F.T[k]) @ V
            sc = np.abs(I) @ np.abs(F.T[k]) @ np.abs(I); un = np.array([1, 1e-3, 1, 1e-3, 1, 1e-3 * de, 1])
            if np.any(np.abs(G.T[k] - I) > 1e-9 * sc + 1e-11 * np.outer(un, 1 / un) * (1 + (sc * un / un[:, None]).max())): bad("other end: matrix of charge state %d: %s, not %s" % (k, G.T[k].tolist(), I.tolist())); return
        C.cov["traces_validated_against_impl"] += len(R)

def cpiece(rng, fam, roll=True):
    v = rng.choice(fam); d = dict(v=v, t=rng.choice([-2, -1, 0, -3, 1, 7, 13]), m=rng.choice([0, 0, 1]), e=rng.choice([0, 1, 2, 2]), f=0)
    if roll and rng.random() < 0.4: d["r"] = rng.choice([6, 12, 1, -5])
    if rng.random() < 0.3: d["x"], d["y"] = rng.choice([(1, 0), (0, -1), (2, 1)])
    s = rng.choice([1, 1, 2, 0]) if not d["m"] else rng.choice([1, -1, 2, 0])
    if not roll: d["e"], d["f"], d["x"], d["y"] = rng.choice([0, 0, 1, 2]), rng.choice([0, 1, 1]), 0, 0
    return pc("C", 2, s, **d)
def plain(p):
    "no choice of description that knows the energy of the beam"
    if p["k"] in "KB": p["v"] = 0
    if p["k"] == "B" and p["s"] == 0 and p["t"] == 0: p["t"] = 1
    return p
def cword(rng, roll=True):
    fam = rng.choice(FAM); n = rng.randint(1, 3)
    w = [cpiece(rng, fam, roll) for _ in range(n)]
    for _ in range(rng.randint(0, 4)): w.insert(rng.randint(0, len(w)), plain(piece(rng, "DQSEXKBM" + ("R" if roll else ""), off=roll)))
    if not roll:
        for p in w: p["r"] = 0; p["e"] = p["e"] if p["k"] != "K" else 0
    return w
def cavbeam(rng, w, ref=False):
    b = beams(rng, ref); v = [p["v"] for p in w if p["k"] == "C"][0]
    b["IonEk"] = rng.choice(EK[v])
    z0 = rng.randint(28, 40) if v in (0, 4, 5) else rng.randint(60, 80); n = len(b["IonChargeStates"]); zs = [z0] if ref else rng.sample(range(z0 - 2, z0 + 4), n)
    b["IonChargeStates"] = [z / 238 for z in zs]
    if "IonZ" in b: b["IonZ"] = (z0 + 0.5) / 238
    for i in range(n):
        b["moment0%d" % i][4] = 0.0 if ref else rng.uniform(-0.1, 0.1) + (rng.choice([2.0, -3.0, 4.5]) if rng.random() < 0.15 else 0)
        b["moment0%d" % i][5] = 0.0 if ref else rng.choice([0, 1e-3, -2e-3]) * b["IonEk"] * 1e-6
    return b
CEK = 1e-11
def cav_conserved(w, st):
    for i, p in enumerate(w):
        a, b = st[i], st[i + 1]; tag = "after %s (element %d)" % (p["k"], i)
        for nme in SCAL:
            if nme.endswith("IonEk") and p["k"] == "C" and p["s"]: continue
            if not np.array_equal(a.a[nme], b.a[nme]): return "%s: %s changed from %s to %s" % (tag, nme, a.a[nme].tolist(), b.a[nme].tolist())
        if not close(b.a["pos"], a.a["pos"] + p["n"] * U, 1e-12 * (1 + abs(a.a["pos"]))): return tag + ": position"
        if p["k"] != "C": continue
        for k in range(a.n):
            T = b.T[k]
            if not np.all(np.isfinite(T)): return tag + ": transfer matrix is not finite: %s" % T.tolist()
            e = (b.a["IonEk"][k] - b.a["ref_IonEk"][0]) * 1e-6
            if abs(b.m0[k][5] - e) > 1e-13 * b.a["ref_IonEk"][0] * 1e-6 + 1e-16: return "%s: energy of charge state %d above the reference is %.17g, its centroid says %.17g" % (tag, k, e, b.m0[k][5])
            e = b.a["phis"][k] - b.a["ref_phis"][0]
            if abs(b.m0[k][4] - e) > 1e-13 * (1 + abs(b.a["ref_phis"][0])): return "%s: phase of charge state %d after the reference is %.17g, its centroid says %.17g" % (tag, k, e, b.m0[k][4])
            sc = np.abs(T) @ np.abs(a.m0[k])
            if not close(b.m0[k], T @ a.m0[k], 1e-9 * (sc + 1e-5)): return "%s: centroid %s is not what the reported matrix makes of it, %s" % (tag, b.m0[k].tolist(), (T @ a.m0[k]).tolist())
            s1 = np.abs(T) @ np.abs(a.m1[k]) @ np.abs(T.T)
            if not p["f"] and not close(b.m1[k], T @ a.m1[k] @ T.T, 1e-9 * (s1 + 1e-10)): return "%s: envelope is not what the reported matrix makes of it" % tag
            J = np.zeros((4, 4)); J[0, 1] = J[2, 3] = 1; J -= J.T
            t4 = T[:4, :4]; G = t4.T @ J @ t4; q = np.abs(t4).T @ np.abs(J) @ np.abs(t4); g = G[0, 1]
            if np.any(np.abs(G - g * J) > 1e-10 * (q + 1)): return "%s: transverse motion is not a damped symplectic one: %s" % (tag, t4.tolist())
            if abs(np.linalg.det(T[4:6, 4:6]) - 1) > 1e-8 * (1 + np.abs(T[4:6, 4:6]).max()): return "%s: longitudinal motion does not keep the area: %s" % (tag, T[4:6, 4:6].tolist())
    return None
def freq(b, f):
    "the same beam, its phases counted in f times the frequency"
    c = copy.deepcopy(b); m = np.array([1, 1, 1, 1, f, 1, 1.0])
    for i in range(len(b["IonChargeStates"])):
        c["moment0%d" % i] = (m * b["moment0%d" % i]).tolist(); c["initial%d" % i] = (np.outer(m, m) * np.array(b["initial%d" % i]).reshape(7, 7)).flatten().tolist()
    c["SampleFreq"] = b.get("SampleFreq", 80.5e6) * f
    return c
def unfreq(B, f):
    m = np.array([1, 1, 1, 1, 1 / f, 1, 1.0])
    B.m0, B.m1 = B.m0 * m, B.m1 * np.outer(m, m)
    for nme in ("phis", "ref_phis"): B.a[nme] = B.a[nme] / f
    for nme in ("ref_SampleFreq", "SampleFreq"): B.a[nme] = B.a[nme] / f
    return B
def cav_replay(C, exe, outs, rng, name):
    G = {}
    for o in outs: G.setdefault(json.dumps(o["a"]), []).append(o)
    X = Runner(C, exe); lost = 0
    def bad(what, w, o, S, b): C.violation("cavity:" + what.split(":")[0][:40], "%s: lattice %s against %s: %s" % (name, short(w), short(o), what), dict(a=w, b=o, scale=vars(S), beam=b))
    for key, os_ in G.items():
        if C.viol and len(C.viol) > 3: break
        w0 = json.loads(key)
        for w in [w0] + [o["b"] for o in os_] + [o[m] for o in os_ for m in "xyz"]:
            for p in w:
                for q in P0: p.setdefault(q, P0[q])
        b = cavbeam(rng, w0); S = Scale(rng, b); S.dir = C.work.path("cav")
        jobs, what = [(lattice(w0, S), b, True)], [("base", w0, None)]
        for o in os_:
            if o["ref"] != "any": continue
            jobs.append((lattice(o["b"], S), b, rng.random() < 0.05)); what.append(("same", o["b"], o))
            if o["x"]:
                jobs.append((lattice(o["x"], S), mirrored(b, -1, 1), False)); what.append(("mirx", o["x"], o))
                jobs.append((lattice(o["y"], S), mirrored(b, 1, -1), False)); what.append(("miry", o["y"], o))
        for k in range(len(b["IonChargeStates"])): jobs.append((lattice(w0, S), alone(b, k), False)); what.append(("alone", w0, k))
        b2 = dict(b, IonChargeStates=[2 * z for z in b["IonChargeStates"]]); S2 = copy.copy(S); S2.f = 0.5; S2.ecpi = 2 * S.ecpi
        if "IonZ" in b: b2["IonZ"] = 2 * b["IonZ"]
        jobs.append((lattice(w0, S2), b2, False)); what.append(("rigid", w0, None))
        if not any(p["f"] for p in w0):         # recorded finding, see emit_freq()
            fs = rng.choice([2.0, 0.5]); jobs.append((lattice(w0, S), freq(b, fs), False)); what.append(("freq", w0, fs))
        # a charge state that is the reference does what the reference does
        flat = all(p["k"] != "B" for p in w0)
        if flat: jobs.append((lattice(w0, S), cavbeam_ref(rng, b), True)); what.append(("ref", w0, None))
        # cavities that follow the reference do so wherever they stand
        if flat and all(p["m"] == 0 for p in w0 if p["k"] == "C"): jobs.append((lattice([pc("D", 5)] + w0, S), b, False)); what.append(("late", w0, None))
        R = X.run(jobs)
        if not R[0]["ok"]: bad("refused: %s" % R[0]["msg"], w0, w0, S, b); continue
        base = end(R[0])
        if not np.all(np.isfinite(base.m1)) or not np.all(base.a["IonEk"] > 0) or not base.a["ref_IonEk"][0] > 0 or np.abs(base.m0).max() > 1e4: lost += 1; continue
        st0 = [Beam(x) for x in R[0]["steps"]]
        # the growth of emittance is computed with a loss of digits that goes with the fourth power of a short beam's length
        short_ = [min(math.sqrt(abs(q.m1[k][4, 4])) for q in st0[i:i + 2] for k in range(q.n)) for i, p in enumerate(w0) if p["f"] and p["k"] == "C"]
        grow = sum(1e-12 / max(x, 1e-9) ** 4 for x in short_)
        if grow > 1e-3: lost += 1; continue
        # the phase that is reported is that of the field
        w1 = copy.deepcopy(w0); phi = {}
        for i, p in enumerate(w1):
            if p["k"] == "C" and not p["f"]: p["m"] = 1; phi[i] = float(st0[i + 1].a["last_caviphi0"][0])
        L = lattice(w1, S)
        for i in phi: L["elements"]["c"][i]["phi"] = phi[i]
        jobs.append((L, b, False)); what.append(("driven", w1, None)); R += X.run(jobs[-1:])
        for (kind, w, o), r in zip(what, R):
            if not r["ok"]: bad("refused: %s" % r["msg"], w0, w, S, b); break
            B = end(r)
            if "steps" in r:
                e = cav_conserved(w, [Beam(x) for x in r["steps"]])
                if e: bad(e, w0, w, S, b); break
            if kind == "base": continue
            kw = dict(ek=CEK, OPT=1e-7 + grow)
            if kind == "ref":
                e = None if close(B.a["IonEk"], B.a["ref_IonEk"], CEK * B.a["IonEk"]) and close(B.a["phis"], B.a["ref_phis"], 1e-10 * (1 + np.abs(B.a["phis"]))) else "charge state that is the reference: energy %s phase %s, reference %s %s" % tuple(B.a[x].tolist() for x in ("IonEk", "phis", "ref_IonEk", "ref_phis"))
            elif kind == "late": e = None if close(B.a["ref_IonEk"], base.a["ref_IonEk"], CEK * base.a["ref_IonEk"]) else "energy of the reference %s, with a drift in front %s" % (base.a["ref_IonEk"], B.a["ref_IonEk"])
            elif kind in ("same", "driven"): e = differ(base, B, **kw)
            elif kind == "mirx": e = differ(base, B, -1, 1, **kw)
            elif kind == "miry": e = differ(base, B, 1, -1, **kw)
            elif kind == "alone": e = differ(base, B, ks=[o], **kw)
            elif kind == "freq": e = differ(base, unfreq(B, o), **kw)
            else:
                for nme in ("IonZ", "ref_IonZ"): B.a[nme] = B.a[nme] / 2
                e = differ(base, B, **kw)
            if e: bad(("%s: " % kind if kind != "same" else "") + e, w0, w, S, b); break
            C.cov["traces_validated_against_impl"] += 1
    C.cov["runs"] = C.cov.get("runs", 0) + X.n; C.cov["lost_beams"] = C.cov.get("lost_beams", 0) + lost
def cav_tilted(C, exe, rng, n):
    "cavities with pitch and yaw"
    X = Runner(C, exe)
    for _ in range(n):
        w = cword(rng); b = cavbeam(rng, w); S = Scale(rng, b); S.dir = C.work.path("cav")
        t = [(rng.choice([0, 1e-3, -4e-3]), rng.choice([0, 2e-3, -1e-3])) for _ in w]
        def lat(sy, S=S):
            L = lattice([mirx(p) for p in w] if sy < 0 else w, S)
            for e, (p, y) in zip(L["elements"]["c"], t):
                if e["type"] not in ("marker", "bpm", "drift"): e["pitch"], e["yaw"] = p, sy * y
            return L
        b2 = dict(b, IonChargeStates=[2 * z for z in b["IonChargeStates"]]); S2 = copy.copy(S); S2.f = 0.5; S2.ecpi = 2 * S.ecpi
        if "IonZ" in b: b2["IonZ"] = 2 * b["IonZ"]
        R = X.run([(lat(1), b, True), (lat(-1), mirrored(b, -1, 1), False), (lat(1, S2), b2, False), (lat(1), freq(b, 2.0), False)] + [(lat(1), alone(b, k), False) for k in range(len(b["IonChargeStates"]))])
        def bad(what): C.violation("cavity:" + what.split(":")[0][:40], "tilted: lattice %s with pitch, yaw %s: %s" % (short(w), t, what), dict(a=w, tilt=t, scale=vars(S), beam=b))
        if not all(r["ok"] for r in R): bad("refused: %s" % [r.get("msg") for r in R]); return
        base = end(R[0]); kw = dict(ek=CEK, OPT=1e-7)
        if not np.all(np.isfinite(base.m1)) or np.abs(base.m0).max() > 1e4: continue
        e = differ(base, end(R[1]), -1, 1, **kw) or differ(base, end(R[2]), scal=False, OPT=1e-7) or differ(base, unfreq(end(R[3]), 2.0), **kw)
        for k, r in enumerate(R[4:]): e = e or differ(base, end(r), ks=[k], **kw)
        if e: bad(e); return
        C.cov["traces_validated_against_impl"] += len(R) - 1
def emit_freq(C, exe, rng):
    "the recorded finding: growth of emittance depends on the frequency in which phases are counted"
    w = [pc("C", 2, 2, v=0, t=-2, e=2, f=1)]; b = cavbeam(rng, w); S = Scale(rng, b); S.scl = 0.35
    R = Runner(C, exe).run([(lattice(w, S), b, False), (lattice(w, S), freq(b, 2.0), False)])
    if not all(r["ok"] for r in R): C.violation("cavity:refused", "%s" % R, w); return
    e = differ(end(R[0]), unfreq(end(R[1]), 2.0), ek=CEK, OPT=1e-7)
    if e: C.violation("emit-growth-frequency", "growth of emittance with phases counted in twice the frequency: %s" % e, w)
    C.cov["traces_validated_against_impl"] += 1
def idle_hquad(C, exe, rng):
    "the recorded finding: in a built-in cavity a magnetic quadrupole without field changes the focusing that follows it"
    w, u = [pc("C", 2, 2, v=0, t=-2, e=1)], [pc("C", 2, 2, v=0, t=-2, e=2, c=[4])]; b = cavbeam(rng, w); S = Scale(rng, b); S.scl = 0.35; S.dir = C.work.path("cav")
    R = Runner(C, exe).run([(lattice(w, S), b, False), (lattice(u, S), b, False)])
    if not all(r["ok"] for r in R): C.violation("cavity:refused", "%s" % R, w); return
    e = differ(end(R[0]), end(R[1]), ek=CEK, OPT=1e-7)
    if e: C.violation("idle-hquad", "a cavity with multipoles of field zero and one without: %s" % e, w)
    C.cov["traces_validated_against_impl"] += 1
def mirx(p):
    k = p["k"]; p = dict(p, r=-p["r"], x=-p["x"])
    if k in ("S", "X", "K", "R"): p["s"] = -p["s"]
    if k == "SP": p["c"] = [-x for x in p["c"]]
    if k == "K": p["e"] = -p["e"]
    if k == "B": p.update(s=-p["s"], e=-p["e"], f=-p["f"])
    return p
def cavbeam_ref(rng, b):
    c = alone(b, 0); c["IonZ"], c["IonQ"] = b["IonChargeStates"][0], b["NCharge"][0]
    c["moment00"] = b["moment00"][:4] + [0.0, 0.0, 1.0]; return c

# ------------------------------------------------------------------ Vector and TransferMatrix
def lin_element(p, S, i):
    k = p["k"]; d = {"name": "e%d" % i}
    if k == "M": return dict(d, type="marker")
    d["L"] = p["n"] * U
    if k == "D": return dict(d, type="drift")
    if k == "Q": return dict(d, type="quadrupole", K=p["s"] * S["q"])
    if k == "S": return dict(d, type="solenoid", K=p["s"] * S["b"])
    return dict(d, type="sbend", phi=p["s"] * p["n"] * S["phi"], K=p["t"] * S["K"])
def lin_replay(C, exe, outs, rng, name):
    G = {}
    for o in outs: G.setdefault(json.dumps(o["a"]), []).append(o)
    X = Runner(C, exe)
    for key, os_ in G.items():
        w0 = json.loads(key)
        for sim in ("Vector", "TransferMatrix"):
            S = dict(q=rng.choice([0.5, 4.0, 25.0]), b=rng.choice([0.3, 2.0]), phi=rng.choice([0.02, 0.3]), K=rng.choice([0.1, 3.0, 20.0]))
            ini = {"initial": [rng.uniform(-1, 1) for _ in range(6 if sim == "Vector" else 36)]}
            m = np.array([1, 1, 1, 1, 1, 1.0]); mx = np.array([-1, -1, 1, 1, 1, 1.0]); my = np.array([1, 1, -1, -1, 1, 1.0])
            def mir(v): return {"initial": (v * ini["initial"]).tolist() if sim == "Vector" else (np.outer(v, v) * np.array(ini["initial"]).reshape(6, 6)).flatten().tolist()}
            jobs, what = [], []
            for w, v in [(w0, m)] + [(o["b"], m) for o in os_] + [(o[z], v) for o in os_ for z, v in (("x", mx), ("y", my)) if o[z]]:
                jobs.append(({"sim_type": sim, "elements": {"c": [lin_element(p, S, i) for i, p in enumerate(w)]}}, mir(v), False)); what.append((w, v))
            R = X.run(jobs)
            for (w, v), r in zip(what, R):
                if not r["ok"]: C.violation("optics:refused", "%s %s: %s refused: %s" % (name, sim, short(w), r["msg"]), dict(a=w0, b=w, scale=S, beam=ini)); return
                x = hexd(r["end"]["state"]); pos = hexd(r["end"]["pos"])[0]
                y = v * x if sim == "Vector" else (np.outer(v, v) * x.reshape(6, 6)).flatten()
                if v is m and w is w0: base, p0 = y, pos
                sc = np.abs(base).max() if len(base) else 1
                tol = 3e-9 * (np.abs(base) + sc * (1e-3 if sim == "Vector" else 1))
                if not close(y, base, tol) or abs(pos - p0) > 1e-12: C.violation("optics:linear", "%s %s: lattice %s gives %s %s, %s gives %s %s" % (name, sim, short(w0), base.tolist(), p0, short(w), y.tolist(), pos), dict(a=w0, b=w, scale=S, beam=ini)); return
                C.cov["traces_validated_against_impl"] += 1

def tlc_words(C, name, base, laws, depth, maxlen, mir=3, simulate=None, seed=None, workers=4, only=0, ins=INS, kinds="QSEXB"):
    f = C.work.path("opt-%s.json" % name); json.dump(dict(base=base, laws=laws, depth=depth, maxlen=maxlen, ins=ins, kinds=list(kinds), mir=mir, only=only, sim=1 if simulate else 0), open(f, "w"))
    R = vf.tlc("Optics", "SPECIFICATION Spec\nINVARIANTS MeaningOK MirrorOK ReverseOK Report\nCONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n", C.work, name=name,
               env={"OPT_IN": f}, workers=workers, simulate=simulate, depth=depth + 2 if simulate else None, seed=seed)
    C.cov["states"] += R.distinct or R.states; C.cov["transitions"] += R.states
    return R.out

def run_cav(C):
    exe = vf.build(("driver",))["driver"]
    C.assumptions += ["equality within relative 1e-7 of the beam's own size, energies to 1e-11", "the cavities that come with the code; beams in the range of energies these are made for; beams that are lost on the way are counted and left out"]
    rng = random.Random(vf.SEED * 37 + 11); th = C.tier == "thorough"; jobs = []
    rewrite(C.work.path("cav"))
    def job(name, base, laws, depth, maxlen, **kw):
        sd = rng.randint(1, 1 << 30)
        def f(c):
            outs = tlc_words(c, name, base, laws, depth, maxlen, seed=sd % 99991, ins=CINS, kinds="QSEX", **kw)
            seen, uniq = set(), []
            for o in outs:
                k = json.dumps([o["a"], o["b"], o["ref"]])
                if k not in seen: seen.add(k); uniq.append(o)
            r = random.Random(sd); r.shuffle(uniq)
            cav_replay(c, exe, uniq[:20000 if th else 3000], r, name)
        jobs.append((name, f))
    CINS = [x for x in INS if x[0]["k"] not in "BH"]
    CL = ["cut", "merge", "profile", "null", "insert", "remove", "roll", "phase"]
    ONE = [[pc("C", 2, s, v=v, t=t, m=m, e=e)] for v in range(len(CAVS)) for s in (-1, 0, 1) for m in (0, 1) for t, e in ((-2, 2), (5, 1), (0, 0)) if m or s >= 0]
    rng.shuffle(ONE)
    for i in range(2): job("one%d" % i, ONE[i::2], ["phase", "roll"], 2, 4, mir=2)
    for i in range(12 if th else 3): job("long%d" % i, [cword(rng) for _ in range(400 if th else 60)], CL, 10, 16, simulate=2500 if th else 250, only=1, mir=1, workers=1)
    for i in range(4 if th else 2): job("grow%d" % i, [cword(rng, False) for _ in range(200 if th else 50)], CL, 10, 16, simulate=1500 if th else 150, only=1, mir=1, workers=1)
    job("growturn", [[pc("R", 0, a), pc("C", 2, 2, v=v, t=t, f=1)] for v in range(len(CAVS)) for a in (6, -6, 12) for t in (-2, 0)], ["roll"], 1, 4, mir=2)
    jobs.append(("finding", lambda c: emit_freq(c, exe, random.Random(5))))
    jobs.append(("finding2", lambda c: idle_hquad(c, exe, random.Random(6))))
    sd = rng.randint(1, 1 << 30); jobs.append(("tilt", lambda c: cav_tilted(c, exe, random.Random(sd), 2500 if th else 300)))
    if os.environ.get('OPT_JOBS'): jobs = [j for j in jobs if j[0].startswith(os.environ['OPT_JOBS'])]
    vf.parallel(C, jobs, 7)
    C.cov["samples"] = [short(w) for w in ONE[:3]]

def run(C):
    exe = vf.build(("driver",))["driver"]
    C.assumptions += ["equality within relative 3e-9 of the beam's own size", "settings and beams of checks/optics.py, chosen by the seed; electrostatic dipoles are cut only for the particle they are made for"]
    rng = random.Random(vf.SEED * 31 + 5)
    th = C.tier == "thorough"
    jobs = []
    def job(name, base, laws, depth, maxlen, rep=replay, **kw):
        sd = rng.randint(1, 1 << 30)
        def f(c):
            outs = tlc_words(c, name, base, laws, depth, maxlen, seed=sd % 99991, **kw)
            seen, uniq = set(), []
            for o in outs:
                k = json.dumps([o["a"], o["b"], o["ref"]])
                if k not in seen: seen.add(k); uniq.append(o)
            r = random.Random(sd); r.shuffle(uniq)
            rep(c, exe, uniq[:60000 if th else 9000], r, name)
        jobs.append((name, f))
    S = singles(rng); rng.shuffle(S)
    for i in range(4): job("one%d" % i, S[i::4], LAWS, 2, 5)
    for i in range(8 if th else 3): job("two%d" % i, [[piece(rng), piece(rng)] for _ in range(60 if th else 25)], [l for l in LAWS if l != "insert"], 2 , 5, mir=4)
    for i in range(10 if th else 4): job("long%d" % i, [[piece(rng) for _ in range(rng.randint(3, 8))] for _ in range(400 if th else 80)], LAWS, 12, 16, simulate=4000 if th else 500, only=1, mir=1, workers=1)
    TK = lambda *a: replay(*a, thick=True)
    job("thick", [[pc("X", n, s, m=m, v=v)] for n, m in ((2, 1), (3, 3), (4, 2)) for s in (-1, 1, 2) for v in (0, 1)] + [[pc("X", 2, 1, m=2, x=1, y=-1), pc("K", 0, 1), pc("X", 1, -2)]], [l for l in LAWS if l != "roll"], 2, 5, rep=TK, mir=2)
    job("tilt", [[piece(rng) for _ in range(rng.randint(1, 4))] for _ in range(3000 if th else 500)], [], 0, 8, rep=tilted, mir=1)
    for i in range(2):
        sd = rng.randint(1, 1 << 30)
        jobs.append(("axis%d" % i, lambda c, sd=sd: axis(c, exe, random.Random(sd), 6000 if th else 1200)))
    jobs.append(("finding", lambda c: thick(c, exe, random.Random(3))))
    LI = [[pc("M")], [pc("D")], [pc("Q", 0, 1)], [pc("S", 0, -1)]]
    lp = lambda: rng.choice([pc("D", rng.randint(1, 3)), pc("Q", rng.randint(1, 4), rng.choice([-1, 0, 1, 2])), pc("S", rng.randint(1, 4), rng.choice([-1, 0, 1, 2])), pc("B", rng.randint(1, 4), rng.choice([-1, 0, 1, 2]), t=rng.choice([-1, 0, 1])), pc("M")])
    job("lin", [[lp() for _ in range(n)] for n in (1, 1, 1, 2, 2, 3) for _ in range(40 if th else 10)], ["cut", "merge", "null", "insert", "remove"], 2, 5, rep=lin_replay, mir=2, ins=LI, kinds="QSB")
    if os.environ.get('OPT_JOBS'): jobs = [j for j in jobs if j[0].startswith(os.environ['OPT_JOBS'])]
    vf.parallel(C, jobs, 7)
    C.cov["samples"] = [short(w) for w in S[:3]]

if __name__ == "__main__":
    vf.main(sys.argv[1], run_cav if sys.argv[1] == "C24" else run)
