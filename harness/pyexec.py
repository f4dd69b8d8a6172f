"""Runs in the real interpreter with the real flame module.  One JSON job per input line, one JSON answer per line.
roles: exec (behaviours of spec/PyApi.tla), eval (descriptions of objects, in a process that does nothing else), conv (conversions)"""
import sys, json, os, gc, io, hashlib, weakref, random, logging, copy
sys.path.insert(0, sys.argv[1])
import numpy as np
import flame
from flame import Machine, GLPSParser, GLPSPrinter
from flame._internal import State, Machine as MachineBase, _GLPSParse
from collections import OrderedDict

DEF = json.load(open(sys.argv[3])) if len(sys.argv) > 3 else None
logging.getLogger("flame.machine").addHandler(logging.NullHandler())

def value(v):
    return np.asarray(v, dtype=float) if isinstance(v, list) else v
def elem(d): return {k: value(v) for k, v in d.items()}
def lattice(l, sel):
    L = DEF["lats"][l - 1]
    c = OrderedDict((k, value(v)) for k, v in L["globals"].items())
    c["elements"] = [elem(L["elems"][i][s - 1]) for i, s in enumerate(sel)]
    return c
def text(l, sel): return GLPSPrinter(lattice(l, sel))
def attr(kind, a): return DEF["attrs"][kind - 1][a - 1]

# --- fingerprints -------------------------------------------------------------
def canon(x):
    x = np.array(x, dtype=np.float64, copy=True) if np.asarray(x).dtype != np.uint64 else np.array(x)
    if x.dtype == np.float64: x[np.isnan(x)] = np.nan
    return x
def fpval(v):
    a = np.asarray(v)
    if a.dtype == np.float64: a = a.copy(); a[np.isnan(a)] = np.nan
    return "%s%s%s" % (type(v).__name__, a.shape, hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest()[:12])
def fpstate(s):
    h = hashlib.md5()
    for n in sorted(set(s) - {"next_elem"}):   # (where a run would go on: not part of the beam)
        h.update((n + fpval(getattr(s, n))).encode())
    return h.hexdigest()[:16]
def fpconf(c):
    h = hashlib.md5()
    for k, v in c.items():
        if isinstance(v, list): v = "[" + ",".join(fpconf(x) for x in v) + "]"; h.update((k + v).encode())
        elif isinstance(v, str): h.update((k + "=s" + v).encode("utf8", "surrogateescape"))
        else: h.update((k + "=" + fpval(v)).encode())
    return h.hexdigest()[:16]
def fpmach(m):
    h = hashlib.md5()
    h.update(str(len(m)).encode())
    for i in range(len(m)): h.update(fpconf(m.conf(i)).encode())
    names = sorted({m.conf(i)["name"] for i in range(len(m))}); types = sorted({m.conf(i)["type"] for i in range(len(m))})
    h.update(repr([(n, m.find(name=n)) for n in names] + [(t, m.find(type=t)) for t in types] + [m.find()]).encode())
    return h.hexdigest()[:16]

# --- descriptions of objects ----------------------------------------------------
def setattr_(s, kind, a, v):
    n = attr(kind, a); old = getattr(s, n)
    if isinstance(old, float): setattr(s, n, old + 0.25 * v)
    elif isinstance(old, int): setattr(s, n, v)
    else: setattr(s, n, old * (1 - v / 64) + v * 1e-3)
def scribble(x, k):
    if isinstance(x, np.ndarray): x[...] = x * 2 + k; return x
    return x
def initconf(kind, k): return elem(DEF["inits"][kind - 1][k - 1])
def build(t):
    kind = DEF["lats"][t[0]["lat"] - 1]["kind"]
    m = Machine(lattice(t[0]["lat"], [1] * DEF["lats"][t[0]["lat"] - 1]["n"]))
    s = m.allocState(initconf(kind, t[0]["k"])) if t[0]["k"] else m.allocState()
    for x in t[1:]:
        if x["f"] == "prop": Machine(lattice(x["lat"], x["sel"])).propagate(s, start=x["start"], max=x["max"])
        elif x["f"] == "set": setattr_(s, kind, x["a"], x["v"])
        elif x["f"] == "write": setattr(s, attr(kind, x["a"]), array(x))
    return s
def array(x):
    kind = DEF["lats"][x["t"][0]["lat"] - 1]["kind"]
    v = getattr(build(x["t"]), attr(kind, x["a"]))
    for k in range(x["scr"]): v = scribble(v, k)
    return v
def evaluate(j):
    try:
        if j["what"] == "st": return fpstate(build(j["t"]))
        if j["what"] == "arr": return fpval(array(j))
        if j["what"] == "mach": return fpmach(Machine(lattice(j["lat"], j["sel"])))
    except Exception as e:
        return "error %s %s" % (type(e).__name__, e)

# --- misuse -------------------------------------------------------------------------
class Boom(Exception): pass
class BadIndex:
    def __index__(self): raise Boom("index")
class BadFloat:
    def __float__(self): raise Boom("float")
class BadIter:
    def __iter__(self): raise Boom("iter")
class BadBool:
    def __bool__(self): raise Boom("bool")
class BadStr:
    def __str__(self): raise Boom("str")
    __repr__ = __str__
class BadSeq:
    def __len__(self): raise Boom("len")
    def __getitem__(self, i): raise Boom("item")
class BadRead:
    def read(self): raise Boom("read")
class OddRead:
    def __init__(self, r): self.r = r
    def read(self): return self.r
class BadName:
    @property
    def name(self): raise Boom("name")
    def read(self): return b"sim_type=\"Vector\"; a: marker; c: LINE=(a);"
class NumName(BadName):
    name = 7
class BadList(list):
    def __iter__(self):
        yield ("name", "a"); raise Boom("list")
def genboom(*v):
    for x in v: yield x
    raise Boom("gen")
V = b'sim_type="Vector"; a: marker; c: LINE=(a);'
MIS = []
def mis(need):
    def d(f): MIS.append((need, f)); return f
    return d
def M_(need, *fs):
    for f in fs: MIS.append((need, f))
# construction
M_("none", lambda m, s: Machine(BadList()), lambda m, s: Machine({"sim_type": "Vector", "elements": [BadList()]}), lambda m, s: Machine({"sim_type": "Vector", "elements": [{"name": "a", "type": "marker"}], "z": [BadList()]}), lambda m, s: GLPSPrinter(BadList()),
   lambda m, s: GLPSPrinter({"z": [BadList()]}))
M_("none", lambda m, s: Machine(), lambda m, s: Machine(5), lambda m, s: Machine(None), lambda m, s: Machine(1.5), lambda m, s: Machine(object()), lambda m, s: Machine(V, foo=1),
   lambda m, s: Machine(V, extra=5), lambda m, s: Machine(V, extra=[("a", 1)]), lambda m, s: Machine(V, extra={"x": []}), lambda m, s: Machine(V, extra={"x": BadFloat()}), lambda m, s: Machine(V, extra={3: 4}),
   lambda m, s: Machine(V, path=3), lambda m, s: Machine(V, path="a\0b"), lambda m, s: Machine(b"not a lattice"), lambda m, s: Machine(b""), lambda m, s: Machine(""), lambda m, s: Machine(V + b"\xff\xfe"),
   lambda m, s: Machine({}), lambda m, s: Machine([]), lambda m, s: Machine({"sim_type": "Vector"}), lambda m, s: Machine({"sim_type": 5, "elements": []}), lambda m, s: Machine({"sim_type": "Nope", "elements": [{"name": "a", "type": "marker"}]}),
   lambda m, s: Machine({"sim_type": "Vector", "elements": [5]}), lambda m, s: Machine({"sim_type": "Vector", "elements": {"name": "a"}}), lambda m, s: Machine({"sim_type": "Vector", "elements": [{"name": "a"}]}),
   lambda m, s: Machine({"sim_type": "Vector", "elements": [{"type": "marker"}]}), lambda m, s: Machine({"sim_type": "Vector", "elements": [{"name": "a", "type": "nosuch"}]}), lambda m, s: Machine({"sim_type": "Vector", "elements": [{"name": 3, "type": "marker"}]}),
   lambda m, s: Machine({5: 6}), lambda m, s: Machine({"a\0b": 6}), lambda m, s: Machine([("a",)]), lambda m, s: Machine([1, 2]), lambda m, s: Machine({"a": None}), lambda m, s: Machine({"a": object()}), lambda m, s: Machine({"a": BadFloat()}), lambda m, s: Machine({"a": BadSeq()}),
   lambda m, s: Machine({"a": [1.0, 2.0]}), lambda m, s: Machine({"a": {"b": 1}}), lambda m, s: Machine({"a": np.zeros((2, 2, 2))}), lambda m, s: Machine({"a": np.array(["x"])}), lambda m, s: Machine({"a": 10 ** 400}), lambda m, s: Machine({"a": 1j}), lambda m, s: Machine({"a": "\ud800"}),
   lambda m, s: Machine({"a": [{"b": [{"c": [{"d": [{"e": [{}]}]}]}]}]}),
   lambda m, s: Machine(BadRead()), lambda m, s: Machine(OddRead("text")), lambda m, s: Machine(OddRead(None)), lambda m, s: Machine(OddRead(5)), lambda m, s: Machine(OddRead(b"")), lambda m, s: Machine(NumName()),
   lambda m, s: Machine(np.zeros(3)), lambda m, s: Machine(memoryview(b"x = ")), lambda m, s: Machine(bytearray(b"x")), lambda m, s: Machine(V[:-1] + b"\0"),
   lambda m, s: Machine.__new__(Machine).conf(), lambda m, s: Machine.__new__(Machine).conf(0), lambda m, s: len(Machine.__new__(Machine)), lambda m, s: str(Machine.__new__(Machine)), lambda m, s: Machine.__new__(Machine).allocState(), lambda m, s: Machine.__new__(Machine).find(), lambda m, s: Machine.__new__(Machine).reconfigure(0, {}),
   lambda m, s: Machine.propagate(), lambda m, s: Machine.conf(3), lambda m, s: MachineBase.conf(object()),
   lambda m, s: State(), lambda m, s: State.__new__(State), lambda m, s: object.__new__(State), lambda m, s: type("Q", (State,), {})(), lambda m, s: object.__new__(type("Q", (State,), {})),
   lambda m, s: GLPSParser().parse(), lambda m, s: GLPSParser().parse(b"x = ;"), lambda m, s: GLPSParser().parse(5), lambda m, s: GLPSParser().parse(V, extra={"a": None}), lambda m, s: _GLPSParse(None), lambda m, s: GLPSParser().parse(V, None, None, 4),
   lambda m, s: GLPSPrinter(), lambda m, s: GLPSPrinter(5), lambda m, s: GLPSPrinter("x"), lambda m, s: GLPSPrinter([("a",)]), lambda m, s: GLPSPrinter({"a": None}), lambda m, s: GLPSPrinter({}, 1), lambda m, s: GLPSPrinter((("a", 1),)),
   lambda m, s: flame.setLogLevel("x"), lambda m, s: flame.setLogLevel(), lambda m, s: flame.setLogLevel(1.5), lambda m, s: flame.setLogLevel(10 ** 30), lambda m, s: flame.getLoggerName(3))
# machines
M_("m", lambda m, s: m.conf("x"), lambda m, s: m.conf(len(m)), lambda m, s: m.conf(-1), lambda m, s: m.conf(10 ** 30), lambda m, s: m.conf(BadIndex()), lambda m, s: m.conf([]), lambda m, s: m.conf(0, 0), lambda m, s: m.conf(nope=1), lambda m, s: m.conf(float("nan")), lambda m, s: m.conf(1j),
   lambda m, s: m.allocState(5), lambda m, s: m.allocState([("a", 1)]), lambda m, s: m.allocState({"a": None}), lambda m, s: m.allocState({5: 1}), lambda m, s: m.allocState({}, BadBool()), lambda m, s: m.allocState({}, np.zeros(3)), lambda m, s: m.allocState({}, foo=1), lambda m, s: m.allocState({"a": 10 ** 400}),
   lambda m, s: m.propagate(), lambda m, s: m.propagate(None), lambda m, s: m.propagate(5), lambda m, s: m.propagate(object()), lambda m, s: m.propagate(m), lambda m, s: m.propagate({}),
   lambda m, s: m.reconfigure(), lambda m, s: m.reconfigure(0), lambda m, s: m.reconfigure(0, 5), lambda m, s: m.reconfigure(0, [("L", 1)]), lambda m, s: m.reconfigure(len(m), {}), lambda m, s: m.reconfigure(-1, {}), lambda m, s: m.reconfigure(2 ** 64, {}), lambda m, s: m.reconfigure(2 ** 64 + 1, {"L": 3.0}), lambda m, s: m.reconfigure(2 ** 32 + 2 ** 33, {}), lambda m, s: m.reconfigure(10 ** 30, {}),
   lambda m, s: m.reconfigure("0", {}), lambda m, s: m.reconfigure(1.5, {"L": 7.0}), lambda m, s: m.reconfigure(None, {}), lambda m, s: m.reconfigure(BadIndex(), {}), lambda m, s: m.reconfigure(1, {"L": None}), lambda m, s: m.reconfigure(1, {"L": BadFloat()}), lambda m, s: m.reconfigure(1, {"L": 10 ** 400}), lambda m, s: m.reconfigure(1, {"type": "nosuch"}),
   lambda m, s: m.reconfigure(1, {"type": "marker"} if m.conf(1)["type"] != "marker" else {"type": "drift"}), lambda m, s: m.reconfigure(1, {"L": 7.0}, BadBool()), lambda m, s: m.reconfigure(1, {"L": 7.0}, np.zeros(3)), lambda m, s: m.reconfigure(1, {"L": 3.0}, True), lambda m, s: m.reconfigure(1, {}, replace=True), lambda m, s: m.reconfigure(1, {"L": 3.0, 5: 6}), lambda m, s: m.reconfigure(1, {"L": 3.0, "x": [1]}), lambda m, s: m.reconfigure(1, {"L": 3.0, "x": object()}), lambda m, s: m.reconfigure(1, {"type": 5.0}), lambda m, s: m.reconfigure(1, {"L": 4.0}, foo=1),
   lambda m, s: m.find(5), lambda m, s: m.find(name="a", type="b"), lambda m, s: m.find(foo=1), lambda m, s: m.find(name="a\0b"), lambda m, s: m.find("a", "b", "c"), lambda m, s: m.find(b"a\0"),
   lambda m, s: m[0], lambda m, s: m.__init__(V), lambda m, s: m.__init__(5), lambda m, s: m.__init__(), lambda m, s: m.nosuch, lambda m, s: m.__setitem__(0, 1), lambda m, s: [x for x in m], lambda m, s: m + m, lambda m, s: m())
# states
M_("s", lambda m, s: s.nosuch, lambda m, s: delattr(s, "pos"), lambda m, s: delattr(s, "next_elem"), lambda m, s: delattr(s, sorted(x for x in s if isinstance(getattr(s, x), np.ndarray))[0]), lambda m, s: delattr(s, "nosuch"),
   lambda m, s: setattr(s, "pos", "x"), lambda m, s: setattr(s, "pos", None), lambda m, s: setattr(s, "pos", [1.0]), lambda m, s: setattr(s, "pos", 10 ** 400), lambda m, s: setattr(s, "pos", object()), lambda m, s: setattr(s, "pos", 1j),
   lambda m, s: setattr(s, "next_elem", -1), lambda m, s: setattr(s, "next_elem", 2 ** 64), lambda m, s: setattr(s, "next_elem", float("nan")), lambda m, s: setattr(s, "next_elem", float("inf")), lambda m, s: setattr(s, "next_elem", "3"), lambda m, s: setattr(s, "next_elem", -1.5), lambda m, s: setattr(s, "next_elem", None), lambda m, s: setattr(s, "next_elem", 1e300),
   lambda m, s: seta(s, 5), lambda m, s: seta(s, None), lambda m, s: seta(s, "x"), lambda m, s: seta(s, []), lambda m, s: seta(s, [[[]]]), lambda m, s: seta(s, np.zeros(13)), lambda m, s: seta(s, np.zeros((1, 1, 1, 1))), lambda m, s: seta(s, np.zeros((70, 70))), lambda m, s: seta(s, BadSeq()), lambda m, s: seta(s, object()), lambda m, s: seta(s, bad(s, lambda a: a[..., :-1])), lambda m, s: seta(s, bad(s, lambda a: a[None])), lambda m, s: seta(s, bad(s, lambda a: a[0])), lambda m, s: seta(s, bad(s, lambda a: a.astype(object) * None if False else np.array([["x"] * 7] * 7))),
   lambda m, s: s.clone(1), lambda m, s: s.show("x"), lambda m, s: s.show(level=None), lambda m, s: s.show(1, 2), lambda m, s: s.show(foo=1), lambda m, s: s[0], lambda m, s: s(), lambda m, s: s + 1, lambda m, s: State.clone(5), lambda m, s: copy.deepcopy(s), lambda m, s: __import__("pickle").dumps(s), lambda m, s: setattr(s, "__class__", int), lambda m, s: s.__setattr__("pos"), lambda m, s: s.__setattr__(5, 5), lambda m, s: s.__getattribute__(5))
def seta(s, v): setattr(s, sorted(x for x in s if isinstance(getattr(s, x), np.ndarray) and getattr(s, x).ndim > 0)[0], v)
def bad(s, f): return f(getattr(s, sorted(x for x in s if isinstance(getattr(s, x), np.ndarray))[0]))
M_("ms", lambda m, s: m.propagate(s, start="x"), lambda m, s: m.propagate(s, start=None), lambda m, s: m.propagate(s, start=1.5), lambda m, s: m.propagate(s, start=BadIndex()), lambda m, s: m.propagate(s, start=10 ** 30), lambda m, s: m.propagate(s, max="x"), lambda m, s: m.propagate(s, max=1.5), lambda m, s: m.propagate(s, max=2 ** 31), lambda m, s: m.propagate(s, max=2 ** 32 + 1), lambda m, s: m.propagate(s, max=-2 ** 40), lambda m, s: m.propagate(s, max=10 ** 30), lambda m, s: m.propagate(s, max=BadIndex()), lambda m, s: m.propagate(s, max=[]), lambda m, s: m.propagate(s, max=float("nan")),
   lambda m, s: m.propagate(s, observe=5), lambda m, s: m.propagate(s, observe=["x"]), lambda m, s: m.propagate(s, observe=[None]), lambda m, s: m.propagate(s, observe=[0, 1.5]), lambda m, s: m.propagate(s, observe=[len(m)]), lambda m, s: m.propagate(s, observe=[0, -1]), lambda m, s: m.propagate(s, observe=[2 ** 70]), lambda m, s: m.propagate(s, observe=genboom(0)), lambda m, s: m.propagate(s, observe=genboom(0, 1)), lambda m, s: m.propagate(s, observe=BadIter()), lambda m, s: m.propagate(s, observe=[0, BadIndex()]), lambda m, s: m.propagate(s, observe="0"), lambda m, s: m.propagate(s, observe=m), lambda m, s: m.propagate(s, observe=s),
   lambda m, s: m.propagate(s, 0, 1, None, 5), lambda m, s: m.propagate(s, foo=1), lambda m, s: m.propagate(state=s, stat=1), lambda m, s: m.allocState(s), lambda m, s: m.reconfigure(1, s), lambda m, s: m.reconfigure(1, {"L": s}), lambda m, s: m.conf(s), lambda m, s: m.find(s))

# --- uses of other objects: anything may be refused, nothing tracked may change ---------------
def pool(r):
    return r.choice([None, True, False, 0, 1, -1, 2, 2 ** 31, 2 ** 63, 2 ** 64, 10 ** 30, 1.5, float("nan"), float("inf"), "", "x", "L", "\0", "\ud800", "é", b"", b"x", V, bytearray(V), memoryview(V), [], {}, (), set(), [1.0], [[1]], [("a", 1)], [{}], {"a": 1}, {"L": 2.0}, {"type": "drift"},
        object(), object, type, len, BadIndex(), BadFloat(), BadIter(), BadBool(), BadStr(), BadSeq(), BadRead(), OddRead(V), OddRead("x"), BadName(), np.zeros(0), np.zeros(6), np.zeros((7, 7)), np.array(5.0), np.float64(2), np.int32(1), np.array([object()]), np.array(["x"]), np.zeros((2, 2, 2)), range(3), iter([0, 1]), genboom(0), genboom(), 1j, Ellipsis, NotImplemented, slice(1), Exception("x"), io.BytesIO(V), io.StringIO("x = 1;"),
        OrderedDict(a=1), {"elements": []}, {"sim_type": "Vector", "elements": [{"name": "a", "type": "drift", "L": 1.0}]}])
class Mutator:
    def __init__(self, d): self.d = d
    def __float__(self): self.d.clear(); gc.collect(); return 1.0
    def __index__(self): self.d.clear(); return 0
def other(r):
    z = r.randrange(14)
    L = r.randrange(len(DEF["lats"])) + 1
    c = lattice(L, [1] * DEF["lats"][L - 1]["n"])
    def kw(names): return {n: pool(r) for n in names if r.random() < .4}
    if z == 0: return Machine(*[pool(r) for _ in range(r.randrange(1, 4))], **kw(["path"]))
    if z == 1: return _GLPSParse(*[pool(r) for _ in range(r.randrange(1, 3))], **kw(["extra"]))
    if z == 2: return GLPSPrinter(pool(r))
    m = Machine(c); s = m.allocState()
    if z == 3: return m.propagate(*([s] if r.random() < .9 else [pool(r)]), **kw(["start", "max", "observe"]))
    if z == 4: return m.reconfigure(r.choice([0, 1, 2, pool(r)]), r.choice([pool(r), {"L": pool(r)}, {"name": pool(r)}, {r.choice(["L", "B2", "aper", "x"]): pool(r)}]), *([pool(r)] if r.random() < .3 else []))
    if z == 5: return m.allocState(*[pool(r) for _ in range(r.randrange(0, 3))])
    if z == 6: return setattr(s, r.choice(sorted(s) + ["foo", "", "\0"]), pool(r))
    if z == 7: return (m.find(*[pool(r) for _ in range(r.randrange(0, 2))], **kw(["name", "type"])), m.conf(pool(r)))
    if z == 8: return (s.show(pool(r)), s.clone(), str(s), len(s), dir(s))
    if z == 9:   # cycles, weak references, order of destruction
        s.me = s; s.m = m; m.x = s if hasattr(m, "__dict__") else None; w = weakref.ref(s); del s, m; gc.collect(); return w() is None
    if z == 10:
        d = {"a": 1, "b": 2}; d["a"] = Mutator(d); d.update({"k%d" % k: "v%d" % k for k in range(20)}); return Machine(V, extra=d)
    if z == 11:
        l = []; c2 = OrderedDict(c); c2["z"] = l; l.extend([{"q": Mutator({})}, {}]); return Machine(c2)
    if z == 12: # nested use from an iterator and from a log handler
        got = []
        def it():
            yield 1
            got.append(m.propagate(m.allocState(), observe=[0]))
            yield 0
        res = m.propagate(s, observe=it())
        if [i for i, _ in res] != [0, 1] or [i for i, _ in got[0]] != [0]: raise SystemError("nested observation lost: %s %s" % ([i for i, _ in res], got))
        return res
    if z == 13:
        class H(logging.Handler):
            def emit(self, rec): raise Boom("handler")
        lg = logging.getLogger("flame.machine"); h = H(); lg.addHandler(h); flame.setLogLevel(0)
        logging.raiseExceptions = False
        try: m.propagate(s, max=r.choice([1, 5])); Machine(c)
        finally: flame.setLogLevel(flame.FLAME_WARN); lg.removeHandler(h)
        return 1

# --- execution of behaviours -------------------------------------------------------------------
def execute(h, seed):
    r = random.Random(seed)
    mach, st, arr = {}, {}, {}
    out = []
    for a in h:
        op = a["op"]; res = dict(exc=None)
        try:
            if op == "new":
                n = DEF["lats"][a["l"] - 1]["n"]; c = lattice(a["l"], [1] * n); how = a["how"]
                if how == 1: m = Machine(c)
                elif how == 2: m = Machine(dict(c))
                elif how == 3: m = Machine(list(c.items()))
                elif how == 4: c["elements"] = [list(e.items()) for e in c["elements"]]; m = Machine(c)
                elif how == 5: m = Machine(c, path=None, extra=None)
                else: c["elements"] = tuple(c["elements"]); m = Machine(config=c)
                mach[a["m"]] = m
            elif op == "dropm": del mach[a["m"]]; r.random() < .3 and gc.collect()
            elif op == "reconf":
                L = DEF["lats"][mach[a["m"]].__dict__["lat"] - 1] if False else None
                alt = elem(DEF["lats"][a["view"]["mach"][a["m"] - 1]["lat"] - 1]["elems"][a["i"] - 1][a["k"] - 1])
                if a["how"] == 1: mach[a["m"]].reconfigure(a["i"] - 1, {k: v for k, v in alt.items() if k not in ("name", "type")})
                else: mach[a["m"]].reconfigure(index=a["i"] - 1, config=alt, replace=True) if False else mach[a["m"]].reconfigure(np.int64(a["i"] - 1), alt)
                r2 = None
            elif op == "alloc":
                m = mach[a["m"]]; kind = a["view"]["st"][a["s"] - 1]["kind"]
                st[a["s"]] = m.allocState(initconf(kind, a["k"])) if a["k"] else r.choice([lambda: m.allocState(), lambda: m.allocState(None), lambda: m.allocState(config=None)])()
            elif op == "clone": st[a["s"]] = st[a["r"]].clone()
            elif op == "drops": del st[a["s"]]; r.random() < .3 and gc.collect()
            elif op == "prop":
                s, m = st[a["s"]], mach[a["m"]]
                o = a["obs"]; kw = {}
                if o or a["keep"] or r.random() < .2: kw["observe"] = r.choice([lambda: list(o), lambda: tuple(o), lambda: iter(o), lambda: (x for x in o), lambda: np.array(o, dtype=int), lambda: [np.int64(x) for x in o]])()
                if r.random() < .5: R = m.propagate(s, a["start"], a["max"], **kw)
                else: R = m.propagate(state=s, start=np.int64(a["start"]), max=a["max"], **kw)
                res["seen"] = [i for i, _ in R] if R is not None else None
                if a["keep"]: st[a["keep"]] = R[-1][1]
                R = None
            elif op == "set": setattr_(st[a["s"]], a["view"]["st"][a["s"] - 1]["kind"], a["a"], a["v"])
            elif op == "read": arr[a["x"]] = getattr(st[a["s"]], attr(a["view"]["arr"][a["x"] - 1]["kind"], a["a"]))
            elif op == "scribble": arr[a["x"]] = scribble(arr[a["x"]], a["view"]["arr"][a["x"] - 1]["scr"] - 1)
            elif op == "write": setattr(st[a["s"]], attr(a["view"]["arr"][a["x"] - 1]["kind"], a["view"]["arr"][a["x"] - 1]["a"]), arr[a["x"]])
            elif op == "misuse":
                x = MIS[a["k"] - 1][1](mach.get(a["m"]), st.get(a["s"]))
                res["got"] = repr(type(x))
            elif op == "query":
                m, s = mach[a["m"]], st[a["s"]]
                str(m), repr(m), len(m), m.conf(), m.conf(None), [m.conf(i) for i in range(len(m))], m.find(), m.find(None, None), m.find(name="zzz"), str(s), repr(s), s.show(), s.show(level=r.randrange(4)), len(s), list(s), [getattr(s, n) for n in s], dir(s), hash(s), weakref.ref(s), weakref.ref(m), GLPSPrinter(m.conf())
                s.note = [s, m]; s.note; del s.note
                x = m.conf(0); x["name"] = "changed"; x = m.conf(); x["elements"][0]["name"] = "changed"
                gc.collect()
            elif op == "other":
                for _ in range(3):
                    try: other(r)
                    except SystemError: raise
                    except (Exception, SystemExit) as e:
                        if isinstance(e, SystemExit): raise SystemError("SystemExit from " + str(e))
                gc.collect()
        except SystemError as e: res["exc"] = "SystemError"; res["msg"] = str(e)
        except Exception as e: res["exc"] = type(e).__name__; res["msg"] = str(e)[:200]
        if sys.exc_info()[0] is not None: res["leak"] = str(sys.exc_info()[0])
        # a state whose propagation was refused by an element is not predicted here
        res["st"] = {k: fpstate(s) for k, s in st.items()}
        res["arr"] = {k: fpval(x) for k, x in arr.items()}
        res["mach"] = {k: fpmach(m) for k, m in mach.items()}
        out.append(res)
    l = list(mach.values()) + list(st.values()) + list(arr.values()); r.shuffle(l); mach.clear(); st.clear(); arr.clear()
    while l: l.pop()
    return out

# --- conversions: spec/PyConv.tla -----------------------------------------------------------------
def conv_value(k, r):
    "a Python value of class k, and what it must come back as"
    f = r.choice([0.0, 1.5, -2.25, 1e300, 1e-300, 3.0]); n = r.randrange(0, 5)
    v = [r.choice([0.0, 1.5, -2.25, 7.0]) for _ in range(n)]
    w = r.choice(["abc", "", "x y", "é\u20ac", "a;b\"c", "7", "nil\0inside", "line\nbreak"])
    m = np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])
    sub = {"p": f, "q": w}
    T = {"float": (f, f), "int": (7, 7.0), "bool": (True, 1.0), "npfloat": (np.float64(f), f), "npfloat32": (np.float32(0.5), 0.5), "npint": (np.int32(-3), -3.0), "npbool": (np.bool_(True), 1.0), "inf": (float("inf"), float("inf")),
         "str": (w, w), "npstr": (np.str_("npstr"), "npstr"),
         "array": (np.array(v), np.array(v)), "intarray": (np.arange(n), np.arange(n, dtype=float)), "matrix": (m, m.ravel()), "fortran": (np.asfortranarray(m), m.ravel()), "strided": (np.arange(12.)[::3], np.arange(12.)[::3]), "reversed": (np.arange(4.)[::-1], np.arange(4.)[::-1]), "float32array": (np.array([0.5, 2], dtype=np.float32), np.array([0.5, 2])), "boolarray": (np.array([True, False]), np.array([1.0, 0.0])), "scalararray": (np.array(f), np.array([f])), "bigendian": (np.array([1.5, 2.5], dtype=">f8"), np.array([1.5, 2.5])), "empty": (np.zeros(0), np.zeros(0)), "transposed": (m.T, m.T.ravel()),
         "dicts": ([sub, {}], [sub, {}]), "odicts": ([OrderedDict(sub)], [sub]), "tuples": ([[("p", f), ("q", w)]], [sub]), "dicttuple": ((sub,), [sub]), "nolist": ([], []), "nested": ([{"in": [{"in": [{"p": f}]}]}], [{"in": [{"in": [{"p": f}]}]}]), "bytes0": (b"", []),
         "none": (None, None), "obj": (object(), None), "numlist": ([1.0, 2.0], None), "dict": ({"a": 1}, None), "cube": (np.zeros((2, 2, 2)), None), "strarray": (np.array(["a"]), None), "big": (10 ** 400, None), "complex": (1j, None), "surrogate": ("\ud800", None), "deep": ([{"a": [{"a": [{"a": [{"a": [{}]}]}]}]}], None), "badfloat": (BadFloat(), None), "mixed": ([{}, 5], None), "set": ({1}, None), "bytes": (b"xyz", None), "lambda": (len, None), "objarray": (np.array([object()]), None)}
    return T[k]
BADCONV = ["none", "obj", "numlist", "dict", "cube", "strarray", "big", "complex", "surrogate", "deep", "badfloat", "mixed", "set", "bytes", "lambda", "objarray"]
def same(got, want):
    if isinstance(want, float): return type(got) is float and (got == want or (got != got and want != want))
    if isinstance(want, str): return type(got) is str and got == want
    if isinstance(want, np.ndarray): return type(got) is np.ndarray and got.dtype == np.float64 and got.shape == want.shape and np.array_equal(got, want)
    if isinstance(want, list): return type(got) is list and len(got) == len(want) and all(isinstance(g, dict) and same(g, w) for g, w in zip(got, want))
    if isinstance(want, dict): return dict(got).keys() == want.keys() and all(same(dict(got)[k], v) for k, v in want.items())
    return False
def convert_text(j):
    r = random.Random(j["seed"]); x, want = (7.0, 7.0) if j["x"] == "-" else conv_value(j["x"], r)
    if isinstance(want, np.ndarray): want = float(want[0]) if want.size else None
    own = {"p": want, "q": [1.0, 2.0]}
    t = ("" if j["x"] != "-" else "x = 7; ") + 'sim_type = "Vector"; y = x; v = [1, 2]; a: marker, p = x, q = v; b: drift, L = 0.5; c: LINE = (a, b, a);'
    t = t.encode(); h = j["how"]; kw = {} if j["x"] == "-" else {"extra": {"x": x}}
    if r.random() < .3: kw["path"] = "/"
    src = {"bytes": t, "str": t.decode(), "bytearray": bytearray(t), "memoryview": memoryview(t), "BytesIO": io.BytesIO(t), "array": np.frombuffer(t, dtype=np.uint8), "keyword": t, "file": OddRead(t)}[h]
    args = () if h == "keyword" else (src,)
    if h == "keyword": kw["config"] = src
    def again():   # readers are exhausted by use
        return (OddRead(t),) if h == "file" else (io.BytesIO(t),) if h == "BytesIO" else args
    try: m = Machine(*args, **kw)
    except SystemError as e: return dict(bad="SystemError %s" % e)
    except Exception as e:
        try: GLPSParser().parse(*again(), **kw)
        except Exception: return dict(ok=False, exc=type(e).__name__, msg=str(e)[:100])
        return dict(bad="the parser accepts what Machine() refuses")
    C = m.conf(); P = dict(GLPSParser().parse(*again(), **kw))
    for n, D in (("conf()", C), ("parse()", P)):
        for k, w in (("y", want), ("v", np.array([1.0, 2.0])), ("sim_type", "Vector")):
            if not same(D.get(k), w): return dict(bad="%s[%s] is %r instead of %r" % (n, k, D.get(k), w))
        if [dict(e)["name"] for e in D["elements"]] != ["a", "b", "a"]: return dict(bad="elements")
    E = m.conf(2)
    if not same(E.get("p"), want) or not same(E.get("q"), np.array([1.0, 2.0])) or E["type"] != "marker": return dict(bad="element %s" % E)
    m2 = Machine(C)
    if fpconf(m2.conf()) != fpconf(C) or any(fpconf(m2.conf(i)) != fpconf(m.conf(i)) for i in range(3)): return dict(bad="not a round trip")
    return dict(ok=True)
def convert(j):
    if j["how"] != "dict": return convert_text(j)
    r = random.Random(j["seed"])
    g = {k: conv_value(c, r) for k, c in j["g"].items()}; o = {k: conv_value(c, r) for k, c in j["o"].items()}
    keep = {k: copy.deepcopy(v[0]) if not isinstance(v[0], (object().__class__,)) or isinstance(v[0], (np.ndarray, list, dict, str, float)) else v[0] for k, v in g.items() if v[1] is not None}
    c = OrderedDict([("sim_type", "Vector")] + [(k, v[0]) for k, v in g.items()] + [("elements", [dict([("name", "e"), ("type", "marker")] + [(k, v[0]) for k, v in o.items()])])])
    try: m = Machine(c if r.random() < .5 else dict(c))
    except SystemError as e: return dict(bad="SystemError %s" % e)
    except Exception as e: return dict(ok=False, exc=type(e).__name__, msg=str(e)[:100])
    C = m.conf(); E = m.conf(0)
    want = {k: v[1] for k, v in g.items()}; want["sim_type"] = "Vector"
    for k, w in want.items():
        if k not in C or not same(C[k], w): return dict(ok=True, bad="global %s given as %s comes back as %r" % (k, j["g"].get(k), C.get(k)))
    if set(C) != set(want) | {"elements"}: return dict(ok=True, bad="keys %s" % sorted(C))
    we = {k: v[1] for k, v in o.items()}; we.update(name="e", type="marker")
    x = C["elements"][0]
    if set(x) != set(we) or not all(same(x[k], v) for k, v in we.items()): return dict(ok=True, bad="element as listed %s instead of %s" % (dict(x), we))
    vis = dict(want); vis.update(we)
    E.pop("elements", None)
    if set(E) != set(vis) or not all(same(E[k], v) for k, v in vis.items()): return dict(ok=True, bad="element configuration %s instead of %s" % (dict(E), vis))
    for k, v in keep.items():
        if isinstance(v, np.ndarray) and not np.array_equal(v, g[k][0]): return dict(ok=True, bad="argument changed")
    # what comes back can be given again
    m2 = Machine(C)
    # (of the enclosing lists, an element inherits those that come before its own)
    def own(c): return {k: v for k, v in c.items() if k in o or not isinstance(v, list)}
    if fpconf(m2.conf()) != fpconf(m.conf()) or fpconf(own(m2.conf(0))) != fpconf(own(m.conf(0))): return dict(ok=True, bad="not a round trip")
    return dict(ok=True)

def bits(x):
    import struct
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]
def lat_value(v):
    if isinstance(v, float): return {"x": bits(v)}
    if isinstance(v, np.ndarray): return [bits(x) for x in v]
    if isinstance(v, list): return {"c": [{k: lat_value(x) for k, x in e} for e in v]}
    return v
def lattice_job(j):
    "a lattice with file names in it, through the module; answers as the driver does"
    here = os.getcwd()
    try:
        os.chdir(j["chdir"])
        kw = {} if j["path"] is None else {"path": j["path"]}
        if j["how"] == "pyfile":
            if kw: src = Named(j["text"].encode(), j["name"])
            else:
                with open(j["name"], "w") as f: f.write(j["text"])
                src = open(j["name"], "rb")
        else: src = j["text"] if j["how"] == "pytext" else j["text"].encode()
        try: c = dict(GLPSParser().parse(src, **kw))
        except Exception as e: return dict(exc=type(e).__name__, msg=str(e), prints="")
        es = c.pop("elements")
        vis = [lat_value([list(e)])["c"][0] for e in es]
        return dict(own={k: lat_value(v) for k, v in c.items()}, elements=[dict(own=v) for v in vis], prints="")
    finally: os.chdir(here)
class Named:
    def __init__(self, t, n): self.t, self.name = t, n
    def read(self): return self.t

# --- logging ------------------------------------------------------------------------------------------
class Capture(logging.Handler):
    "records per thread; acts as the sink of the specification does"
    def __init__(self):
        super().__init__(); self.ev = {}; self.do = None; self.boom = 0; self.busy = {}; self.pause = 0
    def createLock(self): self.lock = None
    def handle(self, rec): self.emit(rec)
    def emit(self, rec):
        import threading, time
        t = threading.get_ident()
        self.ev.setdefault(t, []).append((rec.levelno, rec.getMessage(), rec.name))
        if self.pause: time.sleep(self.pause)
        if self.busy.get(t): return
        if self.boom: raise RuntimeError("handler fails")
        if self.do:
            self.busy[t] = 1
            try: self.do()
            finally: self.busy[t] = 0
def librun(r):
    c = OrderedDict((k, v if k == "elements" else value(v)) for k, v in DEF["runs"][r - 1].items())
    c["elements"] = [elem(e) for e in c["elements"]]
    c["sim_type"] = str(c["sim_type"])
    m = Machine(c); s = m.allocState(OrderedDict((k, v) for k, v in c.items() if k not in ("elements", "sim_type"))); m.propagate(s, 0, 1000)
    return fpstate(s)
def logging_setup():
    lg = logging.getLogger(flame.getLoggerName() if hasattr(flame, "getLoggerName") else "flame.machine")
    for h in list(lg.handlers): lg.removeHandler(h)
    lg.propagate = False
    h = Capture(); lg.addHandler(h)
    return h
LOGREF = []
def logjob(j):
    import threading
    from flame._internal import setLogLevel
    sys.unraisablehook = lambda a: None
    logging.raiseExceptions = False
    if not LOGREF:
        setLogLevel(60); LOGREF.extend(librun(r + 1) for r in range(len(DEF["runs"])))
    h = logging_setup(); t = threading.get_ident()
    b = j["sink"]
    h.boom = j["boom"]
    if b["do"] == "run": h.do = lambda: librun(b["r"])
    setLogLevel(j["thr0"])
    out = []
    for a in j["acts"]:
        h.ev = {}; fp = err = None
        try:
            if a["a"] == "level": setLogLevel(a["l"])
            else: fp = librun(a["r"])
        except BaseException as e: err = repr(e)
        out.append(dict(ev=h.ev.get(t, []), fp=fp, err=err))
    setLogLevel(60)
    return dict(calls=out, ref=LOGREF)
def logthreads(j):
    import threading
    from flame._internal import setLogLevel
    if not LOGREF:
        setLogLevel(60); LOGREF.extend(librun(r + 1) for r in range(len(DEF["runs"])))
    h = logging_setup(); h.pause = 0.0002
    sys.setswitchinterval(1e-5)
    setLogLevel(j["thr"])
    n = len(j["threads"]); recs = [None] * n; bad = [0] * n
    def body(k):
        for r in j["threads"][k]:
            try:
                if librun(r) != LOGREF[r - 1]: bad[k] += 1
            except BaseException: bad[k] += 1
        recs[k] = [x[:2] for x in h.ev.get(threading.get_ident(), [])]
    T = [threading.Thread(target=body, args=(k,)) for k in range(n)]
    # thread identifiers are reused once a thread ends: start all before any can end
    gate = threading.Barrier(n)
    def outer(k): gate.wait(); body(k); gate.wait()
    T = [threading.Thread(target=outer, args=(k,)) for k in range(n)]
    for t in T: t.start()
    for t in T: t.join()
    setLogLevel(60)
    return dict(recs=recs, bad=bad)

role = sys.argv[2]
OUT = os.fdopen(os.dup(1), "w"); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
for line in sys.stdin:
    j = json.loads(line)
    if j.get("op") == "_sync": x = {}
    elif role == "exec": x = execute(j["h"], j["seed"])
    elif role == "eval": x = evaluate(j)
    elif role == "log": x = logjob(j)
    elif role == "logthreads": x = logthreads(j)
    elif role == "conv": x = convert(j)
    elif role == "lattice": x = lattice_job(j)
    elif role == "misall":
        x = []
        for l in range(1, len(DEF["lats"]) + 1):
            for i, (n, f) in enumerate(MIS):
                m = Machine(lattice(l, [1] * DEF["lats"][l - 1]["n"])); st = m.allocState()
                try: f(m, st); x.append((l, i + 1, "no exception", f.__code__.co_consts, f.__code__.co_names))
                except SystemError as e: x.append((l, i + 1, "SystemError %s" % e, repr(f.__code__.co_consts), f.__code__.co_names))
                except Exception as e: pass
        x = [repr(y) for y in x]
    elif role == "needs": x = [n for n, _ in MIS]
    OUT.write(json.dumps(x) + "\n"); OUT.flush()
