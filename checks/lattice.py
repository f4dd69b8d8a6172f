"""C08/C09/C10/C21/C22: the lattice language.

spec -> code: GlpsEnum enumerates every token word up to a bound over an alphabet and predicts the
outcome; the words are rendered and given to the real parser.
code -> spec: random programs (valid and mutated, random layouts, entry points and presets) go through
the real parser; GlpsRun computes the outcome the specification assigns; both must agree."""
import os, sys, json, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, glps
from glps import K, S, P, N, toks

def lines_of(tokens, start=1):
    "one statement per line starting at `start`; sets ln; returns text and next line"
    out = []; ln = start; prev = None
    for t in tokens:
        if prev is not None and prev["t"] == ";": out.append("\n"); ln += 1
        elif glps.needs_space(prev, t): out.append(" ")
        t["ln"] = ln
        out.append(glps.text_of(t)); prev = t
    return "".join(out), ln

def enum(C, drv, name, prelude, alphabet, tail, maxlen, den=False, report="Report", exact=True):
    pre = toks(prelude)
    ptext, pln = lines_of(pre)
    line = pln + 1
    tl = [dict(t, ln=line) for t in toks(tail)]
    # tail statements after the first ';' stay on the same line (so every later token has this line)
    spec = dict(alphabet=alphabet, prelude=pre, tail=tl, maxlen=maxlen, line=line, eofline=line, den=den)
    f = C.work.path(name + ".json")
    json.dump(spec, open(f, "w"))
    cfg = "SPECIFICATION Spec\nCONSTRAINT %s\nINVARIANTS Sane DenOK\nCHECK_DEADLOCK FALSE\n" % report
    R = vf.tlc("GlpsEnum", cfg, C.work, name=name, env=dict(GLPS_IN=f), timeout=3000)
    C.model(R)
    cmds = []; meta = []
    seen = set()
    for e in R.out:
        w = tuple(e["w"])
        if w in seen: continue
        seen.add(w)
        ws = [alphabet[i - 1] for i in w]
        body = [dict(t, ln=line) for t in ws] + tl
        parts = []; prev = None
        for t in body:
            parts.append(" " if glps.needs_space(prev, t) or prev is None else "")
            parts.append(glps.text_of(t)); prev = t
        text = ptext + "\n" + "".join(parts)
        cmds.append(dict(op="parse", text=text, print=C.prop == "C10"))
        meta.append((e["o"], pre + body))
    res = run_all(C, drv, cmds)
    if res is None: return
    nok = 0
    for c, (o, tk), r in zip(cmds, meta, res):
        if o["res"] == "und": C.count("undecided_by_model"); continue
        if o["res"] == "ok": nok += 1
        d = glps.compare(o, r, tk, exact_line=exact)
        if d is None and C.prop == "C10": d = roundtrip(o, r)
        if d: report_v(C, name, d, c, o, r)
        if len(C.viol) > 5: return
    C.traces(len(cmds)); C.count("words_replayed", len(cmds)); C.count("words_accepted", nok)
    C.sample(dict(kind="specification word", text=cmds[len(cmds) // 3]["text"], outcome=meta[len(cmds) // 3][0]["res"]))

def chrfile(C):
    f = C.work.path("chr.json")
    if not os.path.exists(f): json.dump(dict(chr=[chr(i) if 32 <= i < 127 else "?" for i in range(256)], hex=["%02x" % i for i in range(256)]), open(f, "w"))
    return f
def unhex(x):
    "strings of the character specification are in hexadecimal"
    if isinstance(x, dict):
        return {k: bytes.fromhex(v).decode("latin-1") if k == "s" and x.get("k") == "s" else unhex(v) for k, v in x.items()}
    return [unhex(v) for v in x] if isinstance(x, list) else x

def chars(C, drv, name, pre, head, alphabet, tail, maxlen):
    "every character word over the alphabet between head and tail (GlpsChars)"
    f = C.work.path(name + ".json")
    b = lambda x: list(x.encode("latin-1"))
    json.dump(dict(pre=b(pre), head=b(head), tail=b(tail), alphabet=b(alphabet), maxlen=maxlen), open(f, "w"))
    R = vf.tlc("GlpsChars", "SPECIFICATION Spec\nCONSTRAINT Report\nINVARIANT SaneLex\nCHECK_DEADLOCK FALSE\n", C.work, name=name, env=dict(GLPS_IN=f, GLPS_CHR=chrfile(C)), timeout=3000)
    C.model(R)
    cmds, meta, seen = [], [], set()
    for e in R.out:
        w = bytes(e["w"]).decode("latin-1")
        if w in seen: continue
        seen.add(w)
        how = C.rng.choice(["string", "bytes", "bytes", "file"])
        cmds.append(dict(op="parse", raw=True, text=pre + head + w + tail, how=how, tmp=C.work.path("t.lat"), print=C.prop == "C10"))
        meta.append((unhex(e["o"]), e["k"]))
    judge_texts(C, drv, name, cmds, meta, exact="\n" not in alphabet)

def judge_texts(C, drv, name, cmds, meta, exact):
    for i in range(len(cmds)):
        if meta[i][0]["res"] == "und": cmds[i] = dict(op="_sync", text="")
    res = run_all(C, drv, cmds)
    if res is None: return
    n = dict(ok=0, err=0, und=0)
    for c, (o, k), r in zip(cmds, meta, res):
        n[o["res"]] += 1
        if o["res"] == "und": continue
        d = glps.compare(o, r, k, exact_line=exact)
        if d is None and C.prop == "C10": d = roundtrip(o, r)
        if d: report_v(C, name, d, c, o, r)
        if len(C.viol) > 5: return
    C.traces(len(cmds) - n["und"]); C.count("texts", len(cmds)); C.count("texts_accepted", n["ok"]); C.count("undecided_by_model", n["und"])
    C.sample(dict(kind="text", text=cmds[len(cmds) // 3]["text"], outcome=meta[len(cmds) // 3][0]["res"]))

def bytes_texts(C, drv, count, label):
    "programs spoilt (or not) character by character"
    rng = C.rng
    progs, cmds = [], []
    for i in range(count):
        tk = [dict(t) for t in Gen(rng, True, False).program()]
        if rng.random() < .2: tk = mutate(tk, rng)
        for t in tk:
            if t["t"] == "S" and len(t["v"]) > 200: t["v"] = t["v"][:200]
        text, _ = glps.render(tk, rng, rng.choice(["stmt", "free"]))
        text = list(text)
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            if not text: break
            at = rng.randrange(len(text)); z = rng.random()
            ch = rng.choice([chr(rng.randrange(256)), rng.choice("0123456789.eE+-"), rng.choice("abcLINE_:"), rng.choice("\n\r\t #\"\0"), rng.choice("=:;()[],+*/-")])
            if z < .3: del text[at]
            elif z < .65: text.insert(at, ch)
            elif z < .9: text[at] = ch
            else: text = text[:at]
        text = "".join(text)
        how = rng.choice(["string", "bytes", "file", "fp"])
        lat = not (how in ("file", "fp") and rng.random() < .15)
        progs.append(dict(id=i, s=list(text.encode("latin-1")), lat=lat))
        cmds.append(dict(op="parse", raw=True, text=text, how=how, lattice=lat, tmp=C.work.path("t.lat"), print=C.prop == "C10" and lat))
    f = C.work.path(label + ".ndjson")
    with open(f, "w") as fh:
        for p in progs: fh.write(json.dumps(p) + "\n")
    R = vf.tlc("GlpsText", "SPECIFICATION Spec\nINVARIANT Sane\nVIEW View\nCHECK_DEADLOCK FALSE\n", C.work, name=label, env=dict(GLPS_IN=f, GLPS_CHR=chrfile(C)), timeout=3000)
    C.model(R)
    oc = {e["id"]: e for e in R.out}
    if len(oc) != count: raise vf.CheckError("oracle gave %d outcomes for %d texts" % (len(oc), count))
    judge_texts(C, drv, label, cmds, [(unhex(oc[i]["o"]), oc[i]["k"]) for i in range(count)], exact=False)

def report_v(C, name, d, c, o, r):
    key = "lattice"
    if C.prop == "C10" and "round trip" in d and (set(x["name"] for x in o["vars"]) | {"name"}) & set(x["name"] for x in o["elems"]):
        key = "variable-named-like-element"
    C.violation(key, "%s: %s\n--- text (%s)\n%s" % (name, d, c.get("how", "string"), c["text"]), dict(cmd=c, spec=o, code=r))

def run_all(C, drv, cmds):
    out = []
    step = 2000
    i = 0
    while i < len(cmds):
        try:
            out += drv.batch(cmds[i:i + step])
        except vf.Crash as ex:
            bad = cmds[i + len(ex.done)] if i + len(ex.done) < len(cmds) else cmds[-1]
            C.violation("crash", "%s on text %r" % (ex, bad["text"]), bad)
            return None
        i += step
    return out

def finite(o):
    vals = [x["val"] for x in o["vars"]] + [p["val"] for e in o["elems"] for p in e["props"]]
    for v in vals:
        for r in ([v["r"]] if v["k"] == "n" else v["vs"] if v["k"] == "v" else []):
            if not math.isfinite(glps.ieee(r)): return False
    return True

def roundtrip(o, r):
    "C10: printed text parses to the same lattice; printing again reproduces it"
    if o["res"] != "ok" or "text1" not in r: return None
    if not finite(o): return None
    if any(x["name"] == "elements" for x in o["vars"]): return None   # reserved: holds the element list itself
    if any(e["name"] == "USE" for e in o["elems"]): return None   # the printer's own USE statement would be a second definition
    if "again_exc" in r: return "round trip: printed text is rejected: %s\n%s" % (r["again_exc"], r["text1"])
    if not same(r, r["after"], exact=True): return "round trip: printing changed the configuration"
    d = same_to(r, r["again"])
    if d: return "round trip: %s\n%s" % (d, r["text1"])
    if r["text1"] != r["text2"]: return "round trip: printing again gives\n%s\ninstead of\n%s" % (r["text2"], r["text1"])
    return None

def same(a, b, exact):
    return a["own"] == b["own"] and a["elements"] == b["elements"]

def near(a, b):
    if isinstance(a, dict):
        if not isinstance(b, dict): return False
        x, y = glps.hexd(a["x"]), glps.hexd(b["x"])
        return x == y or abs(x - y) <= 5.1e-6 * max(abs(x), abs(y)) + 5e-324
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(near(dict(x=p), dict(x=q)) for p, q in zip(a, b))
    return a == b

def same_to(a, b):
    def maps(x, y, what):
        if set(x) != set(y): return "%s: names %s became %s" % (what, sorted(x), sorted(y))
        for k in x:
            if not near(x[k], y[k]): return "%s: %s = %s became %s" % (what, k, glps.show(x[k]), glps.show(y[k]))
    e = maps(a["own"], b["own"], "variables")
    if e: return e
    if len(a["elements"]) != len(b["elements"]): return "%d elements became %d" % (len(a["elements"]), len(b["elements"]))
    for i, (x, y) in enumerate(zip(a["elements"], b["elements"])):
        e = maps(x["own"], y["own"], "element %d" % i) or maps(x["vis"], y["vis"], "element %d (visible)" % i)
        if e: return e

# ------------------------------------------------------------------ random programs
NUMS = ["0", "1", "2", "3", "4", "7", "10", "0.5", "0.25", "1.5", "2.75", "12.", "1e2", "25e-2", "3.0E1", "007", "1.25e+1", "123456.789", "6.02e23", "1e-9", "314159265", "0.1", "0.7"]
WIDE = ["9007199254740993", "1e300", "1e-300", "1e-308", "1.7976931348623157e308", "4e-320", "1E22", "123456789.123456789", "0.30000000000000004"]
STRS = ["", "a", "MomentMatrix", "x y", "a;b", "# not a comment", "it's", "d1", "1.5", "a,b = (c)", "tab\there", "long " * 300, "e\u00e9"]
NAMES = ["a", "b", "c1", "x_y", "L", "B2", "q:1", "zeta", "name", "type", "elements", "S", "nu", "END", "pi", "LINE", "a_very_long_name_" * 25 + "x"]
TYPES = ["drift", "quadrupole", "source", "sbend", "marker", "stripper", "foo"]
PROPS = ["L", "B2", "B", "phi", "name", "type", "a", "x_y", "Ext", "radius", "vec"]
FUNS = ["sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "deg2rad", "rad2deg"]

class Gen:
    def __init__(s, rng, valid, wild):
        s.rng, s.wild, s.big = rng, wild, rng.random() < 0.03
        s.num, s.vec, s.str, s.el, s.li = [], [], [], [], []
    def fresh(s, used):
        r = s.rng
        for _ in range(50):
            n = r.choice(NAMES) if r.random() < 0.5 else r.choice("dqsmABxyz") + str(r.randint(1, 30))
            if n not in used: return n
        return "v%d" % r.randint(100, 999)
    def numexpr(s, depth):
        r = s.rng; c = r.random()
        if depth <= 0 or c < 0.35:
            if s.num and r.random() < 0.5: return [K(r.choice(s.num))]
            if r.random() < 0.08: return [K("pi")]
            return [N(r.choice(NUMS if r.random() > 0.04 else WIDE))]
        if c < 0.7:
            o = r.choice("+-*/")
            if o == "/" and r.random() < 0.75: return s.numexpr(depth - 1) + [P(o), N(r.choice(["1", "2", "3", "4", "7", "10", "0.5", "0.25", "1.5", "1e2", "25e-2", "3.0E1", "007", "0.7"]))]
            return s.numexpr(depth - 1) + [P(o)] + s.numexpr(depth - 1)
        if c < 0.8: return [P("-")] + s.numexpr(depth - 1)
        if c < 0.92: return [P("(")] + s.numexpr(depth - 1) + [P(")")]
        return [K(r.choice(FUNS)), P("(")] + s.numexpr(depth - 1) + [P(")")]
    def vecexpr(s):
        n = s.rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 20])
        out = [P("[")]
        for i in range(n):
            if i: out.append(P(","))
            out += s.numexpr(2)
        return out + [P("]")]
    def value(s, depth):
        r = s.rng; c = r.random()
        if c < 0.55: return "num", s.numexpr(depth)
        if c < 0.75: return "str", [S(r.choice(STRS))]
        if c < 0.8 and s.str: return "str", [K(r.choice(s.str))]
        if c < 0.84 and s.vec: return "vec", [K(r.choice(s.vec))]
        return "vec", s.vecexpr()
    def lineexpr(s, depth):
        r = s.rng; c = r.random()
        pool = s.el + s.li
        pool = [x for x in pool if x not in s.num + s.vec + s.str] or pool
        if not pool: return [K("nothing")]
        if depth <= 0 or c < 0.5: return [K(r.choice(pool))]
        if c < 0.6: return [P("-")] + s.lineexpr(depth - 1)
        if c < 0.75: return s.count() + [P("*")] + s.lineexpr(0)
        if c < 0.88: return s.lineexpr(0) + [P("*")] + s.count()
        return [P("(")] + s.lineexpr(depth - 1) + [P(")")]
    def count(s):
        r = s.rng
        c = r.random()
        if c < 0.6: return [N(r.choice(["0", "1", "2", "3"]))]
        if c < 0.8: return [P("("), N(r.choice("345")), P("-"), N(r.choice("12")), P(")")]
        if c < 0.805 and s.big: s.big -= 1; return [N(r.choice(["66000", "32770", "300", "257", "1000"]))]
        return [N(r.choice(["1.5", "2.75", "0.5", "0.25", "1.0"]))]
    def program(s):
        r = s.rng; out = []
        n = r.randint(3, 10)
        for _ in range(n):
            c = r.random()
            if c < 0.3:
                v = s.fresh(s.num + s.vec + s.str)
                k, e = s.value(3)
                out += [K(v), P("=")] + e + [P(";")]
                {"num": s.num, "str": s.str, "vec": s.vec}[k].append(v)
            elif c < 0.65 or not s.el:
                v = s.fresh(s.el + ([] if r.random() < 0.1 else s.num + s.vec + s.str))
                out += [K(v), P(":"), K(r.choice(TYPES))]
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    out += [P(","), K(r.choice(PROPS)), P("=")] + s.value(2)[1]
                out.append(P(";")); s.el.append(v)
            elif c < 0.88:
                v = s.fresh(s.li)
                out += [K(v), P(":"), K(r.choice(["LINE", "line", "LiNe", "Line"])), P("="), P("(")]
                for i in range(r.choice([0, 1, 2, 3, 4]) if r.random() < 0.3 else r.randint(1, 4)):
                    if i: out.append(P(","))
                    out += s.lineexpr(2)
                out += [P(")"), P(";")]; s.li.append(v)
            elif c < 0.93:
                out += [K("print"), P("(")] + (s.value(2)[1] if r.random() < 0.6 or not s.el else s.lineexpr(1)) + [P(")"), P(";")]
            elif c < 0.95 and s.li and "USE" not in s.el:
                out += [K("USE"), P(":"), K(r.choice(s.li)), P(";")]; s.el.append("USE")
            elif c < 0.97: out += [K("END"), P(";")]
        if s.el and r.random() < 0.9:
            pool = [e for e in s.el if e != "USE"]
            if pool and (not s.li or r.random() < 0.7):
                v = s.fresh(s.li)
                out += [K(v), P(":"), K("LINE"), P("="), P("(")]
                for i in range(r.randint(1, 5)):
                    if i: out.append(P(","))
                    out += s.lineexpr(2)
                out += [P(")"), P(";")]; s.li.append(v)
        return out

def mutate(tk, rng):
    tk = [dict(t) for t in tk]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not tk: break
        i = rng.randrange(len(tk)); c = rng.random()
        if c < 0.2: del tk[i]
        elif c < 0.35: tk.insert(i, dict(rng.choice(tk)))
        elif c < 0.5: tk[i] = dict(rng.choice(tk))
        elif c < 0.6:
            j = rng.randrange(len(tk)); tk[i], tk[j] = tk[j], tk[i]
        elif c < 0.75: tk.insert(i, rng.choice([P(x) for x in "=:;()[],+*/-"] + [N("2"), N("0"), S("s"), K("a"), K("print"), K("LINE"), K("USE"), K("END"), K("sin"), K("foo"), K("End"), K("ENDS"), K("end"), K("PI"), K("Pi"), K("Print"), K("Sin"), K("use"), K("LINES")]))
        elif c < 0.82: tk.insert(i, dict(t="BAD", v=rng.choice(["$", "%", "&", "'", "{", "?", "<", "@", "!", "_", "\r", ".", "^", "\\"]), n=0, d=0))
        elif c < 0.9: tk = tk[:i]
        else:
            # duplicate a whole statement
            ends = [0] + [n + 1 for n, t in enumerate(tk) if t["t"] == ";"]
            if len(ends) > 1:
                n = rng.randrange(len(ends) - 1); st = [dict(t) for t in tk[ends[n]:ends[n + 1]]]
                at = rng.choice(ends); tk[at:at] = st
    return tk

def random_programs(C, drv, count, mutated, label, layout="mixed"):
    rng = C.rng
    progs = []; cmds = []; tks = []; exact = []
    for i in range(count):
        tk = Gen(rng, True, False).program()
        if rng.random() < mutated: tk = mutate(tk, rng)
        tk = [dict(t) for t in tk]
        # tokens that render ambiguously: unary minus next to numbers is fine; ':' glued to keywords is handled
        mode = rng.choice(["stmt", "stmt", "free"]) if layout == "mixed" else layout
        text, eof = glps.render(tk, rng, mode)
        how = rng.choice(["string", "string", "bytes", "file", "fp"])
        lat = not (how in ("file", "fp") and rng.random() < 0.15)
        pre = []; vars_ = {}
        if rng.random() < 0.25:
            for _ in range(rng.randint(1, 5)):
                n = rng.choice(["a", "b", "c1", "L", "preset", "S", "x_y"])
                if n in vars_: continue
                if rng.random() < 0.7:
                    x = rng.choice([1, 2, 3, 10]); vars_[n] = x; pre.append((n, N(str(x))))
                else:
                    vars_[n] = "ps"; pre.append((n, S("ps")))
        full = []
        for n, v in sorted(pre, key=lambda x: x[0]):
            full += [dict(K(n), ln=1), dict(P("="), ln=1), dict(v, ln=1), dict(P(";"), ln=1)]
        full += tk + [dict(P("EOF"), ln=eof)]
        progs.append(dict(id=i, toks=full, lat=lat))
        c = dict(op="parse", text=text, how=how, lattice=lat, tmp=C.work.path("t.lat"), print=C.prop == "C10" and lat)
        if vars_: c["vars"] = vars_
        c["parser"] = 0; c["fresh"] = rng.random() < 0.3
        if rng.random() < 0.3: c["path"] = C.work.dir
        cmds.append(c); tks.append(tk); exact.append(mode == "stmt")
    f = C.work.path(label + ".ndjson")
    with open(f, "w") as fh:
        for p in progs: fh.write(json.dumps(p) + "\n")
    R = vf.tlc("GlpsRun", "SPECIFICATION Spec\nINVARIANT Sane\nVIEW View\nCHECK_DEADLOCK FALSE\n", C.work, name=label, workers=1, env=dict(GLPS_IN=f), timeout=3000)
    C.model(R)
    oc = {e["id"]: e["o"] for e in R.out}
    if len(oc) != count: raise vf.CheckError("oracle gave %d outcomes for %d programs" % (len(oc), count))
    # texts whose beamline length or divisor the model cannot tell exactly are not run (they may be huge)
    for i in range(count):
        if oc[i]["res"] == "und": cmds[i] = dict(op="_sync", text="")
    dirty = False          # presets stay with a parser object, so use a new one afterwards
    for c in cmds:
        if c["op"] != "parse": continue
        if dirty or "vars" in c: c["fresh"] = True
        dirty = "vars" in c
    res = run_all(C, drv, cmds)
    if res is None: return
    nok = nerr = nund = 0
    for i, (c, r) in enumerate(zip(cmds, res)):
        o = oc[i]
        if o["res"] == "und": nund += 1; continue
        if o["res"] == "ok": nok += 1
        else: nerr += 1
        d = glps.compare(o, r, tks[i], exact_line=exact[i])
        if d is None and C.prop == "C10": d = roundtrip(o, r)
        if d: report_v(C, label, d, c, o, r)
        if len(C.viol) > 5: return
    C.traces(count); C.count("random_programs", count)
    C.count("accepted", nok); C.count("rejected", nerr); C.count("undecided_by_model", nund)
    C.sample(dict(kind="random program", text=cmds[count // 2].get("text"), spec=oc[count // 2]["res"]))

# ---------------------------------------------------------------- C22: names of files, other lattices
class FGen(Gen):
    "programs that name files"
    def __init__(s, rng, names, lats, p=.45):
        super().__init__(rng, True, False); s.big = 0; s.names, s.lats, s.p = names, lats, p
    def name(s):
        r = s.rng; k = r.random()
        if k < .08 and s.str: return [K(r.choice(s.str))]
        return [S(r.choice(s.names))]
    def value(s, depth):
        r = s.rng
        if r.random() > s.p: return super().value(depth)
        f = r.choice(["file", "dir", "h5file", "parse", "parse"]) if s.lats else r.choice(["file", "dir", "h5file"])
        if r.random() < .02: return "vec", [K(f), P("(")] + s.numexpr(1) + [P(")")]
        a = [S(r.choice(s.lats))] if f == "parse" and r.random() < .85 else s.name()
        if f == "h5file" and a[0]["t"] == "S" and r.random() < .5: a = [S(a[0]["v"] + r.choice(["/g", "/g/h", "/g/../h", "//g", "/"]))]
        if f != "parse" and r.random() < .1: a = [K(r.choice(["file", "h5file"])), P("(")] + a + [P(")")]
        if r.random() < .05: a = [P("(")] + a + [P(")")]
        return ("vec" if f == "parse" else "str"), [K(f), P("(")] + a + [P(")")]

class Tree:
    "a small file system in the scratch directory, and its description for the specification"
    def __init__(s, C, sub, rng):
        s.root = os.path.join(os.path.realpath(C.work.dir), sub); s.nodes = []; s.rng = rng
        s.node("d", 0, s.root, [])
        D = {"": 1}
        dn = rng.sample(["a", "b", "c d", "x.y", "de", "a-b"], 4)
        for path in ([dn[0]], [dn[0], dn[1]], [dn[2]], [dn[2], dn[0]], [dn[0], dn[1], dn[3]]):
            D["/".join(path)] = s.mk("d", D["/".join(path[:-1])], path[-1])
        s.D = D; s.dn = dn; s.files = []
        for d, n in sorted(D.items()):
            for f in rng.sample(["f.lat", "g", "data.h5", "a.lat", "z"], 3): s.files.append(s.mk("f", n, f))
        up = lambda d: "/".join([".."] * (d.count("/") + 1 if d else 0)) or "."
        deep = dn[0] + "/" + dn[1]
        s.link(D[""], "l1", deep); s.link(D[dn[2]], "l2", "../" + dn[0]); s.link(D[deep], "l3", up(deep) + "/" + dn[2] + "/l2")
        s.link(D[dn[0]], "l4", s.root + "/" + dn[2]); s.link(D[""], "dang", "nowhere"); s.link(D[deep], "back", ".."); s.link(D[""], "loop", "loop")
        for i in range(4):
            n = rng.choice(s.files); d, t = rng.choice(sorted(D.items()))
            target = s.root + "/" + "/".join(s.nodes[n - 1]["cs"]) if rng.random() < .3 else up(d) + "/" + "/".join(s.nodes[n - 1]["cs"])
            s.link(t, "k%d" % i, target)
        # names to use: up to 5 components, mostly existing
    def node(s, k, up, path, cs, **kw):
        s.nodes.append(dict(dict(k=k, up=up, path=path, cs=cs, kids=[], toks=[], abs=False, to=[]), **kw)); return len(s.nodes)
    def mk(s, k, up, name):
        u = s.nodes[up - 1]
        n = s.node(k, up, u["path"] + "/" + name, u["cs"] + [name]); u["kids"].append(dict(name=name, n=n))
        return n
    def link(s, up, name, to):
        n = s.mk("l", up, name); x = s.nodes[n - 1]
        x["abs"] = to.startswith(s.root + "/"); x["to"] = s.comps(to); x["target"] = to
    def comps(s, t):
        return t[len(s.root) + 1:].split("/") if t.startswith(s.root + "/") else [] if t == s.root else t.split("/")
    def write(s):
        import shutil
        shutil.rmtree(s.root, ignore_errors=True)
        for x in s.nodes:
            if x["k"] == "d": os.makedirs(x["path"], exist_ok=True)
        for x in s.nodes:
            if x["k"] == "f": open(x["path"], "w").write(x.get("text", ""))
            elif x["k"] == "l": os.symlink(x["target"], x["path"])
    def walk(s, n, allow=("d", "f", "l")):
        "a random way from directory n"
        r = s.rng; out = []; cur = n
        for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5])):
            x = s.nodes[cur - 1]
            if x["k"] != "d":
                if r.random() < .15: out.append(r.choice(["..", ".", "g", ""]))
                break
            k = r.random()
            if k < .2 and x["up"]: out.append(".."); cur = x["up"]; continue
            if k < .27: out.append("."); continue
            if k < .3: out.append(r.choice(["nope", "a", "f.lat", "F.lat"])); break
            c = r.choice(x["kids"]) if x["kids"] else None
            if c is None: out.append("."); continue
            out.append(c["name"]); m = c["n"]
            if s.nodes[m - 1]["k"] == "l":      # follow on the real file system
                rp = os.path.realpath(s.nodes[m - 1]["path"])
                h = [i + 1 for i, y in enumerate(s.nodes) if y["path"] == rp]
                if not h: break
                m = h[0]
            cur = m
        return out or ["."]
    def name(s, n):
        here = s.nodes[n - 1]["path"]
        for _ in range(20 if s.rng.random() < .88 else 1):
            t = s.name0(n)
            if os.path.exists(os.path.join(here, t)): break
        return t
    def name0(s, n):
        r = s.rng
        if r.random() < .2: return s.root + "/" + "/".join(s.walk(1))
        t = "/".join(s.walk(n)); return t if not t.startswith("/") else "." + t
    def rel(s, a, b):
        "some name of file node b from directory a"
        r = s.rng; A, B = s.nodes[a - 1]["cs"], s.nodes[b - 1]["cs"]
        if r.random() < .2: return s.root + "/" + "/".join(B)
        i = 0
        while i < len(A) and i < len(B) - 1 and A[i] == B[i] and r.random() < .8: i += 1
        out = [".."] * (len(A) - i) + B[i:]
        if r.random() < .2: out.insert(0, ".")
        return "/".join(out)
    def json(s, strings):
        return dict(nodes=[{k: v for k, v in x.items() if k not in ("text", "target")} for x in s.nodes],
                    names={t: dict(abs=t == s.root or t.startswith(s.root + "/"), cs=s.comps(t)) for t in strings})

def strings(tk): return {t["v"] for t in tk if t["t"] == "S"}
def fill(T, rng):
    "lattices in the files of the tree; later ones use earlier ones"
    S_ = set(); lats = []
    T.write()
    for n in T.files:
        x = T.nodes[n - 1]
        if rng.random() < .12: x["toks"] = [dict(P("EOF"), ln=1)]; continue
        tk = [dict(t) for t in FGen(rng, [T.name(x["up"]) for _ in range(6)], [T.rel(x["up"], m) for m in lats[-6:] for _ in (1, 2)], p=.3).program()]
        if rng.random() < .1: tk = mutate(tk, rng)
        x["text"], eof = glps.render(tk, rng, rng.choice(["stmt", "free"]))
        x["toks"] = tk + [dict(P("EOF"), ln=eof)]; S_ |= strings(tk); lats.append(n)
    T.write()
    return S_, lats

def files(C, drv, py, count, label):
    "random lattices in a random tree of files: driver and Python module against GlpsRun"
    rng = C.rng; T = Tree(C, label, rng)
    S_, lats = fill(T, rng)
    dirs = sorted(T.D.values()); progs, cmds, tks, pj = [], [], [], []
    for i in range(count):
        how = rng.choice(["string", "bytes", "file", "file", "link", "fp", "pyfile", "pytext", "pybytes"])
        d = rng.choice(dirs); dp = T.nodes[d - 1]["path"]
        tk = [dict(t) for t in FGen(rng, [T.name(d) for _ in range(6)], [T.rel(d, m) for m in lats]).program()]
        if rng.random() < .15: tk = mutate(tk, rng)
        text, eof = glps.render(tk, rng, "stmt")
        S_ |= strings(tk); tk2 = tk + [dict(P("EOF"), ln=eof)]
        tmp = dp + "/under_test.lat"
        c = dict(op="parse", text=text, how=how, tmp=tmp, fresh=True, setup=[])
        if how == "link":      # the lattice is found through a link: its own directory counts
            c["how"] = "file"; c["tmp"] = T.nodes[rng.choice(dirs) - 1]["path"] + "/seen_as.lat"; c["link"] = tmp
        elif how in ("string", "bytes", "fp"):
            if how == "fp": c["tmp"] = C.work.path("fp.lat")
            # a directory given with the text: by any of its names
            c["path"] = rng.choice([dp, dp + "/.", dp + "/"] + ([T.root + "/l1"] if dp == T.root + "/" + T.dn[0] + "/" + T.dn[1] else []))
            if rng.random() < .2: c["path"] = ""; c["chdir"] = dp
            elif rng.random() < .3: c["chdir"] = T.nodes[rng.choice(dirs) - 1]["path"]; c["path"] = rng.choice([c["path"], os.path.relpath(dp, c["chdir"])])
        elif how.startswith("py"):
            c["chdir"] = T.nodes[rng.choice(dirs) - 1]["path"]; z = rng.random()
            if how == "pyfile":
                c["name"] = tmp if z < .4 else os.path.relpath(tmp, c["chdir"]); c["path"] = None
                if z > .8: c["path"] = dp; c["name"] = T.root + "/elsewhere/x.lat"
            else:
                c["path"] = dp if z < .5 else os.path.relpath(dp, c["chdir"])
                if z > .85: c["path"] = None; c["chdir"] = dp
        if how in ("file", "link"): c["chdir"] = T.nodes[rng.choice(dirs) - 1]["path"]; c["tmp"] = rng.choice([c["tmp"], os.path.relpath(c["tmp"], c["chdir"])])
        progs.append(dict(id=i, toks=tk2, lat=True, cwd=d)); cmds.append(c); tks.append(tk)
    f, g = C.work.path(label + ".ndjson"), C.work.path(label + ".fs.json")
    json.dump(T.json(S_), open(g, "w"))
    with open(f, "w") as fh:
        for p in progs: fh.write(json.dumps(p) + "\n")
    R = vf.tlc("GlpsRun", "SPECIFICATION Spec\nINVARIANT Sane\nVIEW View\nCHECK_DEADLOCK FALSE\n", C.work, name=label, workers=1, env=dict(GLPS_IN=f, GLPS_FS=g), timeout=3000, xss="900m")
    C.model(R)
    oc = {e["id"]: e["o"] for e in R.out}
    if len(oc) != count: raise vf.CheckError("oracle gave %d outcomes for %d programs" % (len(oc), count))
    keep = [i for i in range(count) if oc[i]["res"] != "und"]
    ans = {}
    for side, d in (("c", drv), ("py", py)):
        idx = [i for i in keep if cmds[i]["how"].startswith("py") == (side == "py")]
        res = run_all(C, d, [cmds[i] for i in idx])
        if res is None: return
        ans.update(zip(idx, res))
    n = dict(ok=0, err=0)
    for i in keep:
        o = oc[i]; n[o["res"]] += 1
        d = glps.compare(o, ans[i], tks[i], exact_line=True, prints=not cmds[i]["how"].startswith("py"))
        if d: report_v(C, label, d, cmds[i], o, ans[i])
        if len(C.viol) > 5: return
    C.traces(len(keep)); C.count("programs_with_files", len(keep)); C.count("accepted", n["ok"]); C.count("rejected", n["err"]); C.count("undecided_by_model", count - len(keep))
    C.sample(dict(kind="program naming files", text=cmds[count // 2]["text"], spec=oc[count // 2]["res"]))

def names(C, drv, label, maxlen, alphabet=8):
    "every name up to a number of components, from every directory (GlpsNames)"
    rng = C.rng; T = Tree(C, label, rng); T.write()
    for n in T.files:      # every file holds a lattice that tells which one it is
        T.nodes[n - 1]["text"] = 'me = %d; here = file("."); d: drift; M : LINE = (d);' % n
    T.write()
    al = [".", "..", "", "nope"] + rng.sample(sorted({k["name"] for x in T.nodes for k in x["kids"]}), alphabet) + ["l1", T.dn[0], "loop"]
    al = sorted(set(al))
    f, g = C.work.path(label + ".json"), C.work.path(label + ".fs.json")
    json.dump(dict(comps=al, maxlen=maxlen, root=T.root), open(f, "w")); json.dump(T.json([]), open(g, "w"))
    R = vf.tlc("GlpsNames", "SPECIFICATION Spec\nCONSTRAINT Report\nINVARIANTS Canon Agree Idle\nCHECK_DEADLOCK FALSE\n", C.work, name=label, env=dict(GLPS_IN=f, GLPS_FS=g), timeout=3000)
    C.model(R)
    TL = ";\nd: drift; M : LINE = (d);"; cmds, want = [], []
    for e in R.out:
        here = T.nodes[e["cwd"] - 1]["path"]
        c = lambda fn: dict(op="parse", text='v = %s("%s")' % (fn, e["s"]) + TL, path=here, how="string", fresh=False)
        if e["f"]["k"] != "und": cmds.append(c(rng.choice(["file", "file", "dir"]))); want.append((e["f"]["k"], e["f"]["s"]))
        if e["h"]["k"] != "und": cmds.append(c("h5file")); want.append((e["h"]["k"], e["h"]["s"]))
        if e["lat"] >= 0 and (e["lat"] > 0 or rng.random() < .3): cmds.append(c("parse")); want.append(("c", e["lat"]) if e["lat"] else ("err", ""))
    res = run_all(C, drv, cmds)
    if res is None: return
    for c, w, r in zip(cmds, want, res):
        v = r.get("own", {}).get("v")
        if w[0] == "err": d = None if str(r.get("msg", "")).startswith("On line 1: ") else "not rejected as an error of line 1"
        elif "exc" in r: d = "rejected: " + r["msg"]
        elif w[0] == "s": d = None if v == w[1] else "gives %r" % v
        else:
            k = v["c"][0]; x = T.nodes[w[1] - 1]
            d = None if glps.hexd(k["me"]["x"]) == w[1] and k["here"] == T.nodes[x["up"] - 1]["path"] else "gives lattice %r" % k
        if d: C.violation("name", "%s in %s: %s, expected %s" % (c["text"].split(";")[0], c["path"], d, w), dict(cmd=c, want=w, code=r))
        if len(C.viol) > 5: return
    C.traces(len(cmds)); C.count("names", len(cmds)); C.count("names_existing", sum(w[0] != "err" for w in want))
    C.sample(dict(kind="name", text=cmds[len(cmds) // 2]["text"], path=cmds[len(cmds) // 2]["path"], want=want[len(cmds) // 2]))

PRE = 'd1: drift, L = 1; d2: quadrupole, B2 = 2; '
def run(C):
    B = vf.build(("driver", "py") if C.prop == "C22" else ("driver",))
    drv = vf.Driver(B["driver"], cwd=C.work.dir)
    T = C.thorough; p = C.prop
    ar = [N("2"), N("0.7"), K("a"), P("+"), P("-"), P("*"), P("/"), P("("), P(")")]
    ln = [K("d1"), K("d2"), K("A"), N("2"), N("0"), P("-"), P("*"), P(","), P("("), P(")")]
    TAILX = "; M: LINE = (d1);"
    if p == "C21":
        enum(C, drv, "expr", PRE + "a = 3; v =", ar, TAILX, 7 if T else 6, den=True)
        if not C.viol:
            enum(C, drv, "func", PRE + 'a = 3; s = "t"; v =', [N("0"), N("1"), K("a"), K("sin"), K("acos"), K("s"), K("pi"), K("Pi"), P("-"), P("/"), P("("), P(")")], TAILX, 6 if T else 5)
        if not C.viol:
            enum(C, drv, "vect", PRE + 'a = 3; u = [1, 2]; v =', [N("0"), K("a"), K("u"), S("s"), P("["), P("]"), P(","), P("-"), P("*")], TAILX, 7 if T else 5)
        if not C.viol:
            enum(C, drv, "later", PRE + 'a = 3; ', [K("a"), K("b"), P("="), N("2"), P("*"), P(";")], TAILX, 9 if T else 8)
        if not C.viol: chars(C, drv, "literal", "d1: drift;\na = 3;\n", "v = ", "0172.e-*", ";\nM: LINE = (d1);\n", 5 + T)
        if not C.viol: random_programs(C, drv, 6000 if T else 700, 0.25, "random")
    elif p == "C08":
        enum(C, drv, "line", PRE + "A: LINE = (d1, d2); M: LINE = (", ln, ");", 6 if T else 5)
        if not C.viol:
            enum(C, drv, "counts", PRE + "A: LINE = (d1); M: LINE = (", [K("d1"), K("A"), N("257"), N("66000"), N("1.5"), P("-"), P("*")], ");", 4)
        if not C.viol:
            enum(C, drv, "stmts", PRE, [K("A"), K("B"), K("USE"), P(":"), K("LINE"), P("="), P("("), P(")"), K("d1"), P(";")], "", 9 if T else 8, report="Report") if T else \
            enum(C, drv, "stmts", PRE + "A: LINE = (d1, d2);", [K("A"), K("USE"), P(":"), K("LINE"), P("="), P("("), P(")"), K("d2"), P(";")], "", 8)
        if not C.viol:
            enum(C, drv, "inherit", "g = 1; e: drift", [K("g"), K("name"), P(","), P("="), N("2"), P(";")], "h: drift; g2 = 5; M: LINE = (2*e, h);", 8)
        if not C.viol: random_programs(C, drv, 6000 if T else 700, 0.1, "random")
    elif p == "C09":
        allk = [K("a"), K("d1"), K("A"), K("LINE"), N("2"), S("s")] + [P(x) for x in "=:;()[],+*/-"]
        enum(C, drv, "any", PRE + "A: LINE = (d1);", allk, ";", 5 if T else 4)
        if not C.viol: enum(C, drv, "stmt", PRE + "A: LINE = (d1);", [K("a"), K("LINE"), K("print"), K("END"), K("End"), N("2")] + [P(x) for x in "=:;(),"], ";", 6 if T else 5)
        if not C.viol: enum(C, drv, "badch", PRE, [K("A"), P(":"), K("LINE"), P("="), P("("), K("d1"), P(")"), P(";"), dict(t="BAD", v="$", n=0, d=0)], ";", 9 if T else 8)
        if not C.viol: random_programs(C, drv, 12000 if T else 1500, 0.8, "random")
        TL = ";\nM: LINE = (d1);\n"; PR = "d1: drift, L = 1;\na = 3;\n"
        for nm, head, al, tl, n in [("number", "v = ", "019.eE+-", TL, 5 + T), ("name", "", "aZ9_:= ", "=1" + TL, 5 + T), ("quote", "v = ", "\"a\n\r#;\\\0\xe9", TL, 4 + T),
                                    ("comment", "v = 1;", "#\n a;\"=\r", "\n" + TL[1:], 5 + T), ("blank", "v = 1", " \t\n\r\f\v\xa0;", TL, 4 + T), ("range", "v = ", "0139e-", "3" + TL, 5 + T), ("limits", "v = 1e", "-+0123", TL, 5 + T), ("last", "M: LINE = (d1);", "# \na;\"\0\r", "", 4 + T)]:
            if not C.viol: chars(C, drv, nm, PR, head, al, tl, n)
        if not C.viol: chars(C, drv, "byte", PR, "v = 2", "".join(map(chr, range(256))), TL, 1 + T)
        if not C.viol: bytes_texts(C, drv, 12000 if T else 1500, "bytes")
    elif p == "C22":
        names(C, drv, "names", 4 if T else 3)
        if not C.viol:
            py = vf.Driver(vf.PY, ["-X", "faulthandler", os.path.join(vf.HARNESS, "pyexec.py"), B["pypath"], "lattice"], cwd=C.work.dir,
                           env={"PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "LD_LIBRARY_PATH": os.path.dirname(B["core"])})
            for k in range(30 if T else 5):
                if not C.viol: files(C, drv, py, 300, "tree%d" % k)
            py.close()
    elif p == "C10":
        enum(C, drv, "line", PRE + 'g = "s"; A: LINE = (d1, d2); M: LINE = (', ln, ");", 6 if T else 5)
        if not C.viol: enum(C, drv, "props", PRE + 'g = 1; e: drift', [K("g"), K("v"), P(","), P("="), N("2.123456789"), S("s"), P("["), P("]"), P("-")], "; k = 1e-5; M: LINE = (e, d1);", 7 if T else 6)
        if not C.viol: random_programs(C, drv, 6000 if T else 900, 0.05, "random")
    drv.close()
    C.cov["exhaustive"] = False
    C.assumptions += ["token words bounded in length as listed in DESIGN.md; beamline counts and divisors decided only when exactly known to the model (else counted as undecided_by_model)",
                      "numbers compared to 1e-14 relative (transcendental functions), integers and rationals to the last bit"]

if __name__ == "__main__":
    vf.main(sys.argv[1], run)
