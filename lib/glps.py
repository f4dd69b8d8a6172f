"""Token rendering and comparison for the lattice language checks."""
import json, math, struct, re
import vf

def K(v): return dict(t="K", v=v, n=0, d=0)
def S(v): return dict(t="S", v=v, n=0, d=0)
def P(t): return dict(t=t, v="", n=0, d=0)
def N(text):
    "numeric literal; exact rational when small"
    from fractions import Fraction
    try:
        f = Fraction(text)
    except Exception:
        f = None
    if f is not None and abs(f.numerator) <= 100000 and f.denominator <= 30000:
        return dict(t="N", v=text, n=f.numerator, d=f.denominator)
    return dict(t="N", v=text, n=int(f is None or abs(f) > 10 ** 20), d=0)
BADTXT = ["$", "%", "&", "'", "{", "}", "?", "<", ">", "|", "~", "@", "!", "\\", "\x01", "\xe9", "_", ".5", "\r"]

def toks(s):
    "tiny tokenizer for writing preludes in checks"
    out = []
    for m in re.finditer(r'"[^"]*"|[A-Za-z](?:[A-Za-z0-9_:]*[A-Za-z0-9_])?|[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?|[=:;()\[\],+*/-]|\n', s):
        x = m.group(0)
        if x == "\n": continue
        if x[0] == '"': out.append(S(x[1:-1]))
        elif x[0].isalpha(): out.append(K(x))
        elif x[0].isdigit(): out.append(N(x))
        else: out.append(P(x))
    return out

def text_of(t):
    if t["t"] == "S": return '"%s"' % t["v"]
    if t["t"] in ("K", "N", "BAD"): return t["v"]
    return t["t"]

def needs_space(a, b):
    "must white space separate the texts of tokens a and b?"
    if a is None: return False
    if a["t"] == "BAD" or b["t"] == "BAD": return True
    w = ("K", "N")
    if a["t"] in w and b["t"] in w: return True
    if a["t"] == "K" and b["t"] == ":": return True     # ':' may belong to a keyword
    if a["t"] == ":" and b["t"] == "K": return False
    return False

def render(tokens, rng, mode="stmt", comments=True, first=1):
    """lay tokens out as text; sets ln on every token; returns (text, eof_line).
    mode 'stmt': one statement per line (plus blank/comment lines); 'free': anything goes"""
    out = []
    line = first
    prev = None
    depth = 0
    def filler():
        nonlocal line
        c = rng.random()
        if c < 0.5 or not comments: out.append("\n"); line += 1
        elif c < 0.8: out.append("# %s\n" % rng.choice(["", "comment; x = 1;", "\"", "USE: none;", "end #"])); line += 1
        else: out.append(" \t\n\n"); line += 2
    for t in tokens:
        sp = needs_space(prev, t)
        if mode == "free" and rng.random() < 0.25:
            if sp and rng.random() < 0.5: out.append(" ")
            filler(); sp = False
        elif mode == "stmt" and prev is not None and prev["t"] == ";":
            filler(); sp = False
            while rng.random() < 0.2: filler()
        if sp: out.append(rng.choice([" ", "\t", "  "]))
        elif rng.random() < 0.4: out.append(rng.choice([" ", "\t", "   "]))
        t["ln"] = line
        out.append(text_of(t))
        prev = t
    if rng.random() < 0.6: out.append(rng.choice(["\n", " ", "\n\n", "\t"]))
    line += out[-1].count("\n") if out and out[-1].strip() == "" else 0
    return "".join(out), line

def ieee(r):
    "evaluate a reverse-polish term in IEEE double arithmetic"
    st = []
    for x in r:
        if x == "u-": st.append(-st.pop())
        elif x in ("+", "-", "*", "/"):
            b = st.pop(); a = st.pop()
            st.append(a + b if x == "+" else a - b if x == "-" else a * b if x == "*" else (a / b if b != 0 else math.nan))
        elif x == "pi": st.append(3.14159265358979323846)
        elif x == "deg2rad": st.append(st.pop() * (3.14159265358979323846 / 180.0))
        elif x == "rad2deg": st.append(st.pop() * (180.0 / 3.14159265358979323846))
        elif x[0].isalpha():
            f = dict(sin=math.sin, cos=math.cos, tan=math.tan, asin=math.asin, acos=math.acos, atan=math.atan,
                     arcsin=math.asin, arccos=math.acos, arctan=math.atan)[x]
            a = st.pop()
            try: st.append(f(a))
            except ValueError: st.append(math.nan)
        else: st.append(float(x))
    assert len(st) == 1, r
    return st[0]

def dhex(d): return "%016x" % struct.unpack("<Q", struct.pack("<d", d))[0]
def hexd(s): return struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]

def close(a, b):
    if a == b: return True
    if math.isnan(a) and math.isnan(b): return True
    return abs(a - b) <= 1e-14 * max(abs(a), abs(b))

def transcendental(r): return any(x[0].isalpha() and x != "u-" for x in r)
def same_num(r, h):
    "arithmetic to the last bit, functions to rounding"
    a, b = ieee(r), hexd(h)
    return close(a, b) if transcendental(r) else (math.isnan(a) and math.isnan(b)) or dhex(a) == h

def val_match(v, j, flat=False):
    "specification value v against driver JSON value j"
    if v["k"] == "n": return isinstance(j, dict) and "x" in j and same_num(v["r"], j["x"])
    if v["k"] == "s": return j == v["s"]
    if v["k"] == "v": return isinstance(j, list) and len(j) == len(v["vs"]) and all(same_num(a, b) for a, b in zip(v["vs"], j))
    if v["k"] == "c": return isinstance(j, dict) and len(j.get("c", [])) == 1 and nested_match(v["c"][0], j["c"][0], flat) is None
    return False

def nested_match(o, g, flat):
    "configuration of another lattice, as dumped inside a value"
    gl = {x["name"]: x["val"] for x in o["vars"]}
    top = dict(gl); top["name"] = o["name"]; top.pop("elements", None)
    g = dict(g); es = g.pop("elements", None)
    if not isinstance(es, dict) or len(es.get("c", [])) != len(o["elems"]): return "nested elements"
    e = map_match(top.items(), g, "nested globals", flat)
    if e: return e
    for i, (a, b) in enumerate(zip(o["elems"], es["c"])):
        own = {x["name"]: x["val"] for x in a["props"]}
        own["name"] = a["name"]; own["type"] = a["type"]
        if flat: own = dict(gl, **own); own.pop("elements", None); b = {k: v for k, v in b.items() if k != "elements"}
        e = map_match(own.items(), b, "nested element %d" % i, flat)
        if e: return e
    return None

def fmt(d): return "%g" % d
def print_text(v):
    if v["k"] == "n": return fmt(ieee(v["r"]))
    if v["k"] == "s": return '"%s"' % v["s"]
    if v["k"] == "v": return "[" + "".join(fmt(ieee(x)) + ", " for x in v["vs"]) + "]"
    if v["k"] == "c": return "?? <Config> ??"
    if v["k"] == "l": return "(" + "".join(x + ", " for x in v["l"]) + ")"

def map_match(want, got, what, flat=False):
    "want: list of (name, value) ; got: dict"
    w = dict(want)
    if set(w) != set(got):
        return "%s: names %s, expected %s" % (what, sorted(got), sorted(w))
    for k, v in w.items():
        if isinstance(v, str):
            if got[k] != v: return "%s: %s is %r, expected %r" % (what, k, got[k], v)
        elif not val_match(v, got[k], flat):
            return "%s: %s is %r, expected %r" % (what, k, show(got[k]), show_v(v))
    return None

def show(j): return hexd(j["x"]) if isinstance(j, dict) and "x" in j else [hexd(x) for x in j] if isinstance(j, list) else j
def show_v(v): return v["c"] if v["k"] == "c" else ieee(v["r"]) if v["k"] == "n" else v["s"] if v["k"] == "s" else [ieee(x) for x in v["vs"]]

def config_match(o, got):
    "outcome o (ok) against dumped configuration"
    gl = {x["name"]: x["val"] for x in o["vars"]}
    top = dict(gl)
    if o["name"]: top["name"] = o["name"]
    top.pop("elements", None)
    e = map_match(top.items(), got["own"], "globals")
    if e: return e
    if len(o["elems"]) != len(got["elements"]):
        return "beamline has %d elements, expected %d" % (len(got["elements"]), len(o["elems"]))
    for i, (a, b) in enumerate(zip(o["elems"], got["elements"])):
        own = {x["name"]: x["val"] for x in a["props"]}
        own["name"] = a["name"]; own["type"] = a["type"]
        e = map_match(own.items(), b["own"], "element %d own" % i)
        if e: return e
        if "vis" not in b: continue
        vis = dict(gl); vis.update(own)
        e = map_match(vis.items(), b["vis"], "element %d visible" % i, True)
        if e: return e
    return None

def expected_prints(o):
    return "".join("On line %d : %s\n" % (p["ln"], print_text(p["val"])) for p in o["prints"])

def compare(o, r, tokens, exact_line=True, prints=True):
    """specification outcome o vs driver answer r; None if they agree, else a description.
    Also returns None for outcomes the model does not decide."""
    if o["res"] == "und": return None
    if "null" in r: return "parser returned nothing"
    if o["res"] == "err":
        if "exc" not in r: return "accepted, but should be rejected (%s, line %d)" % (o["why"], o["line"])
        m = re.match(r"On line (\d+): .", r["msg"], re.S)
        if o["line"]:
            if not m: return "rejected without naming a line: %r" % r["msg"]
            # lines covered by the statement(s) around the offending line
            lo, hi, st = o["st"], o["line"], None
            for t in tokens:
                if st is None: st = t["ln"]
                if t["t"] == ";":
                    if st <= o["line"] <= t["ln"]: lo = min(lo, st); hi = max(hi, t["ln"])
                    st = None
            if st is not None and st <= o["line"]: hi = 10**9
            if exact_line: ok = int(m.group(1)) == o["line"]
            else: ok = lo <= int(m.group(1)) <= hi
            if not ok: return "error names line %s, expected %d (%r)" % (m.group(1), o["line"], r["msg"])
    else:
        if "exc" in r: return "rejected (%r), but should be accepted" % r["msg"]
        e = config_match(o, r)
        if e: return e
    if prints and r["prints"].replace("-nan", "nan") != expected_prints(o):
        return "print statements gave %r, expected %r" % (r["prints"], expected_prints(o))
    return None
