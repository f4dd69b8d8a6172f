"""C18: the command line tool -- every combination of options enumerated by spec/Cli.tla is run with the real `flame`
executable; what must be reported comes from the specification, the numbers from the library."""
import os, sys, json, random, struct, subprocess, re, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, record

CFG = "SPECIFICATION Spec\nINVARIANT ReportsExactly\nINVARIANT InOrder\nINVARIANT NeverSilent\nINVARIANT WarnsUnmatched\nINVARIANT Export\nCHECK_DEADLOCK FALSE\n"
NOMAX = 1000000

def mom(els, line):
    return "\n".join(['sim_type = "MomentMatrix";', "MpoleLevel = 2;", "HdipoleFitMode = 1;", "IonEs = 931494320.0;", "IonEk = 500000.0;", "IonChargeStates = [0.138655462184874, 0.142857142857143];", "NCharge = [10111.0, 10531.0];",
        "moment00 = [-0.0007886, 1.08e-05, 0.01337, 6.678e-06, -0.0001847, 0.00031, 1.0];", "moment01 = [0.0012, 2e-05, 0.0137, 6.6e-06, -0.0001, 0.00032, 1.0];",
        "initial0 = [2.7,0,0,0,0,0,0, 0,3e-6,0,0,0,0,0, 0,0,2.3,0,0,0,0, 0,0,0,4e-6,0,0,0, 0,0,0,0,6e-4,0,0, 0,0,0,0,0,1e-6,0, 0,0,0,0,0,0,0];",
        "initial1 = [2.5,0,0,0,0,0,0, 0,3e-6,0,0,0,0,0, 0,0,2.1,0,0,0,0, 0,0,0,4e-6,0,0,0, 0,0,0,0,5e-4,0,0, 0,0,0,0,0,1e-6,0, 0,0,0,0,0,0,0];"]
        + els + ["cell: LINE = (%s);" % line, "USE: cell;"]) + "\n"
def lin(kind, els, line):
    n = 6 if kind == "Vector" else 36
    return "\n".join(['sim_type = "%s";' % kind, "inits = [%s];" % ",".join(str(0.25 * k + 1) for k in range(n))] + els + ["cell: LINE = (%s);" % line, "USE: cell;"]) + "\n"
class Lat:
    def __init__(self, name, text, elems, quant): self.name, self.text, self.elems, self.quant = name, text, elems, quant
SE = 'S: source, vector_variable="moment0", matrix_variable="initial";'
LATS = [
    Lat("mom", mom([SE, "d: drift, L=dlen;", "d1: drift, L=0.5;", "q: quadrupole, L=0.25, B2=3.0;", "q1: quadrupole, L=0.25, B2=-3.0;", "m: marker;", "d10: solenoid, L=0.2, B=2.0;", "a: LINE = (d1, q1);", "b: LINE = (d, m);"], "S, d, q, 2*a, m, d10, -b"),
        [("S", "source"), ("d", "drift"), ("q", "quadrupole"), ("d1", "drift"), ("q1", "quadrupole"), ("d1", "drift"), ("q1", "quadrupole"), ("m", "marker"), ("d10", "solenoid"), ("m", "marker"), ("d", "drift")],
        ["pos", "next_elem", "ref_IonEk", "moment0_env", "moment1_env", "IonEk", "moment0", "ref_phis"]),
    Lat("vec", lin("Vector", ["S: source, initial=inits;", "d: drift, L=dlen;", "q: quadrupole, L=0.25, K=0.5;", "b: sbend, L=0.5, phi=0.1, K=0.0;"], "S, 2*d, q, b, d"),
        [("S", "source"), ("d", "drift"), ("d", "drift"), ("q", "quadrupole"), ("b", "sbend"), ("d", "drift")], ["pos", "state", "next_elem"]),
    Lat("mat", lin("TransferMatrix", ["S: source, initial=inits;", "d: drift, L=dlen;", "s: solenoid, L=0.5, K=0.2;"], "d, s, S, d, s"),
        [("d", "drift"), ("s", "solenoid"), ("S", "source"), ("d", "drift"), ("s", "solenoid")], ["pos", "state"]),
    Lat("one", mom([SE, "d: drift, L=dlen;"], "S"), [("S", "source")], ["pos", "moment0_env"]),
]
DEFS = [([], ""), ([("dlen", "D", 0.75)], None), ([("other", "S", "a:b=c"), ("dlen", "D", 1e-1)], None), ([("dlen", "D", 2.0), ("dlen", "D", 0.625)], None), ([("dlen", "D", -3.0), ("x", "S", "")], None)]
FMTS = [("txt", 1, True, []), ("txt,verbose=0", 0, True, []), ("txt,file=@", 1, True, []), ("txt,verbose=2,file=@", 2, True, []), ("txt,verbose=12", 12, True, []), ("utest@Q", None, True, []),
        ("hdf5,file=@", None, True, []), ("hdf5", None, False, ["file="]), ("txt,bogus=1", 1, True, ["bogus=1"]), ("hdf5,file=@/grp", None, True, []), ("txt,,verbose", 1, True, []), (None, 1, True, []), ("utest,zz=3@Q", None, True, ["zz=3"])]

def params(lat, **kw):
    types = sorted({t for _, t in lat.elems}); names = sorted({n for n, _ in lat.elems})
    T = [[], [types[0]], [types[-1], types[0]], ["nosuchtype"], ["nosuchtype", types[-1]], [types[0][:3]]]
    Nm = [[], [names[0]], [names[-1], names[0], names[-1]], ["nosuch"], [names[0] + "x", names[-1]], [names[-1]]]
    M = [NOMAX, 0, 1, 2, len(lat.elems) - 1, len(lat.elems), len(lat.elems) + 3, -1, -2]
    P = dict(elems=[dict(name=n, type=t) for n, t in lat.elems], types=T, names=Nm, maxes=M, fmts=[dict(writes=f[2], warns=f[3]) for f in FMTS],
             verbs=[0], defs=[1], bads=[])
    P.update(kw)
    return P

class Run:
    def __init__(self, C, B, lat, tag):
        self.C, self.B, self.lat = C, B, lat
        self.rng = random.Random(vf.SEED * 61 + sum(map(ord, tag)))
        self.dir = C.work.path("cli-" + tag); os.makedirs(self.dir + "/adir")
        self.drv = vf.Driver(B["driver"], env={"VF_SCRATCH": self.dir, "HDF5_USE_FILE_LOCKING": "FALSE"}, cwd=self.dir)
        self.memo = {}; self.n = 0
        for k, (d, _) in enumerate(DEFS):
            open(self.dir + "/l%d.lat" % k, "w").write(("" if any(x[0] == "dlen" for x in d) else "dlen = 0.5;\n") + lat.text)
    def ref(self, k, visited, back, level):
        key = (k, tuple(visited), back, level)
        if key not in self.memo:
            r = self.drv.one(op="cli_ref", path=self.dir + "/l%d.lat" % k, defs=[list(d) for d in DEFS[k][0]], visit=[i - 1 for i in visited], back=back, level=level if level is not None else 1)
            if not r["ok"]: raise vf.CheckError("library refuses lattice %s: %s" % (self.lat.name, r["msg"]))
            if [tuple(e) for e in r["elements"]] != self.lat.elems: raise vf.CheckError("lattice %s has elements %s" % (self.lat.name, r["elements"]))
            self.memo[key] = r
        return self.memo[key]
    def exe(self, args, out=None):
        p = subprocess.run([self.B["cli"]] + args, stdin=subprocess.DEVNULL, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir, timeout=60,
                           env=dict(os.environ, HDF5_USE_FILE_LOCKING="FALSE"))
        return p.returncode, (p.stdout or b"").decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    def opt(self, short, long, val=None):
        r = self.rng
        if val is None: return [r.choice([short, long])]
        return r.choice([[short, val], [short + val] if val and not val.startswith("=") else [short, val], [long, val] if not val.startswith("-") else [long + "=" + val], [long + "=" + val]]) if val != "" else [long, ""]
    def case(self, c):
        rng, o, P = self.rng, c["opt"], self.P
        self.n += 1
        f = self.dir + "/o%d" % self.n
        groups, lat = [], self.dir + "/l%d.lat" % (o["defs"] - 1)
        if o["all"]: groups.append(self.opt("-A", "--select-all"))
        for t in P["types"][o["types"] - 1]: groups.append(self.opt("-T", "--select-type", t))
        for n in P["names"][o["names"] - 1]: groups.append(self.opt("-N", "--select-name", n))
        if o["last"]: groups.append(self.opt("-L", "--select-last"))
        mx = P["maxes"][o["max"] - 1]
        if mx != NOMAX: groups.append(["--max=%d" % mx] if mx < 0 else self.opt("-M", "--max", rng.choice(["%d", "%d", "0%d", "+%d"]) % mx))
        fm, level, writes, warns = FMTS[o["fmt"] - 1]
        q = rng.sample(self.lat.quant, rng.randrange(1, len(self.lat.quant) + 1))
        if fm: groups.append(self.opt("-F", "--format", fm.replace("@Q", "," + ",".join(q)).replace("@", f)))
        v = P["verbs"][o["verb"] - 1]
        if v: groups.append(self.opt("-v", "--verbose", str(v)))
        defs = []
        for n, t, val in DEFS[o["defs"] - 1][0]:
            w = repr(val) if t == "D" else val
            defs.append(self.opt("-D", "--define", "%s=%s:%s" % (n, rng.choice([["D", "double"], ["S", "str"]][t == "S"]), w)))
        rng.shuffle(groups)
        args = groups + [[lat]]; rng.shuffle(args)
        at = sorted(rng.sample(range(len(args) + 1), min(len(defs), len(args) + 1)))
        for k, d in reversed(list(zip(at, defs))): args.insert(k, d)
        if len(defs) > len(at): args = defs + args
        args = sum(args, [])
        rc, so, se = self.exe(args)
        desc = "flame %s (elements %s)" % (" ".join(repr(a) for a in args), " ".join(n for n, _ in self.lat.elems))
        def bad(what): self.C.violation("cli:" + what.split(":")[0][:40], "%s: %s" % (desc, what[:1500]), dict(args=args, lattice=open(lat).read(), case=c, stdout=so[-3000:], stderr=se[-3000:]))
        if rc != 0: return bad("exit status %d: %s" % (rc, se[:300]))
        for w in c["warn"]:
            if w not in se: return bad("no warning about %s: stderr is %r" % (w, se))
        if not c["warn"] and "Warning" in se: return bad("unexpected warning: %s" % se)
        ref = self.ref(o["defs"] - 1, c["visited"], mx < 0, level)
        pick = [x for x in ref["out"] if x["i"] + 1 in set(c["out"])]
        body = so
        if v:
            if not so.startswith("# Reduced lattice\n") or "# Machine configuration\n" not in so or "\n# Final " not in so: return bad("verbose output incomplete: %r" % so[:200])
            body = so.split("# Machine configuration\n", 1)[1].rsplit("\n# Final ", 1)
            fin, body = body[1], body[0]
            if nums(fin) != nums(ref["final"]) and not close(fin, ref["final"]): return bad("final state %r instead of %r" % (fin, ref["final"]))
            tr = [int(x) for x in re.findall(r"^After \[(\d+)\] ", body, re.M)]
            if tr != [i - 1 for i in c["visited"]]: return bad("trace of elements %s instead of %s" % (tr, [i - 1 for i in c["visited"]]))
        if fm is None or fm.startswith("txt"):
            want = "".join("After Element [%d] %s %s\n" % (x["i"], x["name"], x["text"]) for x in pick)
            if fm and "@" in fm:
                if "After Element [" in so: return bad("output on the screen as well as in the file")
                got = open(f).read() if os.path.exists(f) else ""
            else: got = body
            if not v or (fm and "@" in fm):
                if got != want: return bad("reported %s instead of %s: %r, expected %r" % (heads(got), heads(want), got[:700], want[:700]))
            else:
                if heads(got) != heads(want): return bad("reported %s instead of %s" % (heads(got), heads(want)))
                bl = re.split(r"(?m)^(?=After (?:Element )?\[)", got); bl = [b for b in bl if b.startswith("After Element")]
                wl = re.split(r"(?m)^(?=After Element \[)", want)[1:]
                for a, b in zip(bl, wl):
                    if not close(a.rstrip("\n"), b.rstrip("\n")): return bad("block %r instead of %r" % (a, b))
        elif fm.startswith("utest"):
            bl = re.split(r"(?m)^(?=    def test_)", body)
            bl = [b for b in bl if b.startswith("    def test_")]
            if len(bl) != len(pick): return bad("reported %d states instead of %s" % (len(bl), [x["i"] for x in pick]))
            for b, x in zip(bl, pick):
                m = re.match(r"(?s)    def test_(\S+)\(self\):\n        # (\S+)\n        self\.checkPropagate\(0, \{\}, (\{.*\}), max=(\d+)\)\n", b)
                if not m: return bad("unreadable block %r" % b[:400])
                if (m.group(1), m.group(2), int(m.group(4))) != (x["type"], x["name"], x["i"] + 1): return bad("block for %s %s max=%s instead of %s %s %d" % (m.group(1), m.group(2), m.group(4), x["type"], x["name"], x["i"] + 1))
                try: d = eval(m.group(3), dict(asfarray=lambda a: a, nan=float("nan"), inf=float("inf")))
                except Exception as e: return bad("block is not a Python dictionary: %r" % b[:400])
                if sorted(d) != sorted(q): return bad("quantities %s instead of %s" % (sorted(d), sorted(q)))
                for n in q:
                    A = x["arr"][n]
                    if flat(d[n], len(A["dim"])) != (A["dim"], [struct.unpack(">d", bytes.fromhex(y))[0] for y in A["v"]]) and "nan" not in b: return bad("value of %s after element %d is not the library's" % (n, x["i"]))
        elif writes:
            g = "grp" if fm.endswith("/grp") else ""
            r = self.drv.one(op="h5_read", file=f, group=g)
            if not r["ok"]: return bad("HDF5 file unreadable: %s" % r["msg"])
            e = record.compare(r["data"], [x["arr"] for x in pick])
            if e: return bad("HDF5 output: %s" % e)
            if r["attrs"] != {"sim_type": ref["sim"]}: return bad("HDF5 attributes %s" % r["attrs"])
        if os.path.exists(f): os.unlink(f)
        if not (fm is None or (fm.startswith("txt") and "@" not in fm) or fm.startswith("utest")) and not v and so: return bad("unexpected output on the screen: %r" % so[:200])
        self.C.traces()
        if self.n % 200 == 1: self.C.sample(" ".join(os.path.basename(a) if a.startswith("/") else a for a in args)[:300])

    def errors(self, cases):
        "each thing that can be wrong, at its stage, with otherwise fine options"
        rng = self.rng
        self.P = params(self.lat, bads=["args", "defs", "lattice", "max", "format", "machine", "run", "finish"], fmts=[dict(writes=True, warns=[])])
        good = self.dir + "/l0.lat"; t = self.lat.text
        def lat(name, text): p = self.dir + "/" + name; open(p, "w").write(text); return p
        d = "dlen = 0.5;\n"
        by = {"args": [[good, "--nosuch"], ["-v", "abc", good], [good, good + "x"], [], ["-A"], [good, "-M"], [good, "-F"], [good, "--select-all=3"], ["-N", "--", good, good]],
              "defs": [[good, "-D", x] for x in ("X", "=double:1", "X=double", "X=int:3", "X=double:abc", "X=double:", "X=D:1 2", "X=:1", "X:double=1")],
              "lattice": [[self.dir + "/absent.lat"], [self.dir + "/adir"], [lat("e1.lat", d + t.replace("USE", "US E"))], [lat("e2.lat", t)], [lat("e3.lat", "")], [lat("e4.lat", d + t[:len(t) // 2])], [lat("e5.lat", d + t + "x = ;")], [lat("e6.lat", d + d + t)]],
              "max": [[good, "-M", x] for x in ("abc", "1.5", "99999999999", "3x", "1e3", " 3", "0x4")] + [[good, "--max="]],
              "format": [[good, "-F", x] for x in ("xml", "txtx", "TXT", "txt,verbose=x", "txt,verbose=", "txt,file=%s/nodir/x" % self.dir, "hdf5,file=%s/adir" % self.dir, "txt,file=%s/adir" % self.dir)] + [[good, "--format="], [good, "-F", ","]],
              "machine": [[lat("m1.lat", d + re.sub(r'sim_type = "\w+"', 'sim_type = "Nope"', t))], [lat("m2.lat", d + re.sub(r'sim_type = "\w+";', "", t))], [lat("m3.lat", d + t.replace("d: drift", "d: nosuchelem").replace("S: source", "S: nosuchelem"))],
                          [lat("m4.lat", d + re.sub(r'sim_type = "\w+"', "sim_type = 3", t))]]+ ([[lat("m5.lat", d + t.replace("S: source", "S: rfcavity"))]] if "Moment" in t else []),
              "run": [[good, "-A", "-F", "utest,nosuch"], [good, "-A", "-F", "utest,pos,nosuch,pos"]],
              "finish": [[good, "-A", "-F", "txt,file=/dev/full"], [">/dev/full", good, "-A"]]}
        for c in cases:
            o = c["opt"]
            opts = []
            if c["stage"] not in ("run", "finish"):
                if o["all"]: opts.append(["-A"])
                if o["last"]: opts.append(["-L"])
                if c["stage"] != "max" and self.P["maxes"][o["max"] - 1] > 0 and self.P["maxes"][o["max"] - 1] != NOMAX: opts.append(["-M", str(self.P["maxes"][o["max"] - 1])])
            if c["stage"] not in ("args", "finish") and rng.random() < .5: opts.append([rng.choice(["-v1", "-v2", "--verbose=3", "-v6"])])
            x = by[c["stage"]].pop(0); by[c["stage"]].append(x)
            args = list(x); out = None
            if x and x[0] == ">/dev/full": args = x[1:]; out = open("/dev/full", "w")
            args = sum(opts, []) + args if not (x and x[-1].startswith("-")) else args[:1] + sum(opts, []) + args[1:]
            rc, so, se = self.exe(args, out)
            def bad(what): self.C.violation("clierr:" + c["stage"], "flame %s: %s" % (" ".join(repr(a) for a in args), what), dict(args=args, case=c, stdout=so[-2000:], stderr=se[-2000:]))
            if rc == 0: bad("success although the command line is bad (%s); stderr %r" % (c["stage"], se))
            elif rc < 0: bad("killed by signal %d" % -rc)
            elif not se.strip() and not so.strip(): bad("failed without a message")
            elif c["stage"] not in ("run", "finish") and "After Element" in so: bad("reported states although the command line is bad")
            self.C.traces()
            if len(self.C.viol) > 5: return
    def close(self): self.drv.close(); shutil.rmtree(self.dir, ignore_errors=True)

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")
def nums(s): return [x for x in NUM.findall(s)]
def close(a, b):
    na, nb = nums(a), nums(b)
    if len(na) != len(nb): return False
    for x, y in zip(na, nb):
        x, y = float(x), float(y)
        if x != y and not (x != x and y != y) and abs(x - y) > 1e-4 * max(abs(x), abs(y)): return False
    return re.sub(r"\s+", " ", NUM.sub("#", a)).strip() == re.sub(r"\s+", " ", NUM.sub("#", b)).strip()
def heads(s): return [(int(i), n) for i, n in re.findall(r"(?m)^After Element \[(\d+)\] (\S*)", s)]
def flat(x, nd):
    if nd == 0: return [], [float(x)]
    if nd == 1: return [len(x)], [float(y) for y in x]
    return [len(x), len(x[0])], [float(z) for y in x for z in y]

def par(C, tag, P):
    p = C.work.path("p-%s.json" % tag); open(p, "w").write(json.dumps(P)); return {"MPARAM": p}

def c18(C):
    B = vf.build(("driver", "cli"))
    th = C.thorough
    jobs, plans = [], []
    R = vf.tlc("Cli", CFG.replace("INVARIANT Export", "PROPERTY Ends"), C.work, name="ends", workers=2, env=par(C, "ends", params(LATS[1], types=[[], ["drift"]], names=[[], ["nosuch"]], maxes=[NOMAX, 2, -1], fmts=[dict(writes=True, warns=[])], bads=["args", "run", "finish"])))
    C.model(R)
    for L in LATS:
        big = L.name in ("mom", "vec")
        for tag, kw, cap in [
                ("sel", dict(fmts=None, fm=[1, 4, 5][:3]), (500 if big else 150, 6000)),
                ("fmt", dict(types=[[], [L.elems[0][1]]], names=[[], [L.elems[-1][0]]], maxes=[NOMAX, 0, 2, -1], verbs=[0, 1, 3]), (450 if big else 150, 4000)),
                ("def", dict(types=[[]], names=[[], [L.elems[-1][0]], ["nosuch"]], maxes=[NOMAX, 1], defs=[1, 2, 3, 4, 5], verbs=[0, 1]), (200, 2000)),
                ("err", dict(types=[[]], names=[[]], fmts=[dict(writes=True, warns=[])], bads=["args", "defs", "lattice", "max", "format", "machine", "run", "finish"]), (200, 1000))]:
            P = params(L, **{k: v for k, v in kw.items() if v is not None and k != "fm"})
            if tag == "sel": P["fmts"] = P["fmts"][:6]
            plans.append((L, tag, P, cap))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda x: vf.tlc("Cli", CFG, C.work, name="%s-%s" % (x[0].name, x[1]), env=par(C, x[0].name + x[1], x[2]), workers=2, heap="3g"), plans))
    for (L, tag, P, cap), R in zip(plans, outs):
        if True:
            C.model(R)
            o = sorted(R.out, key=lambda x: json.dumps(x, sort_keys=True))
            random.Random(vf.SEED * 5 + len(jobs)).shuffle(o)
            if tag == "err":      # as many of each stage
                by = {}
                for c in o:
                    if c["opt"]["bad"]: by.setdefault(c["stage"], []).append(c)
                o = [c for v in by.values() for c in v[:cap[th] // 8]]
            C.count("command_lines_enumerated", len(R.out))
            o = o[:cap[th]]
            n = 1 if len(o) < 300 else 2 if not th else 4
            for k in range(n):
                def job(sub, L=L, P=P, o=o[k::n], tag="%s-%s%d" % (L.name, tag, k), err=tag == "err"):
                    r = Run(sub, B, L, tag); r.P = P
                    if err: r.errors(o)
                    else:
                        for c in o:
                            r.case(c)
                            if len(sub.viol) > 5: break
                    r.close()
                jobs.append(("%s-%s%d" % (L.name, tag, k), job))
    vf.parallel(C, jobs, 8)
    C.assumptions += ["options not modelled: --help, --timeit", "verbose output compared by visited elements and to printed precision"]

if __name__ == "__main__":
    vf.main("C18", c18)
