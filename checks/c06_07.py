"""C06/C07: configurations are independent values; inner hides outer; typed reads are strict."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

def cfgtext(slots, keys, vals, nest, live, level=1000, export=True, props=True):
    return "\n".join(["SPECIFICATION Spec", "CONSTANTS",
      "Slot = {%s}" % ",".join(map(str, range(1, slots + 1))),
      "Key = {%s}" % ",".join('"%s"' % k for k in keys),
      "KeySeq <- K%d" % len(keys),
      "Val <- %s" % vals, "NestOK = %s" % ("TRUE" if nest else "FALSE"), "MaxLive = %d" % live, "MaxLevel = %d" % level,
      "VIEW cview", "INVARIANT TypeOK", "CONSTRAINT LevelBound"] +
      (["PROPERTIES Refines IndependentI"] if props else []) +
      (["ACTION_CONSTRAINT Export"] if export else []) + ["CHECK_DEADLOCK FALSE"])

def to_cmd(o):
    c = dict(op="cfg", a=o["a"], s=o["s"], d=o["d"], k=o["k"])
    if o["a"] in ("set", "exch"):
        c.update(t=o["v"]["t"], x=o["v"]["x"])
    return c

def replay_graph(C, drv, R, slots, keys, tag):
    init = None
    edges = {}
    for e in R.out:
        o = e["op"]
        if init is None:
            init = e["src"]
        edges.setdefault((e["src"], json.dumps(o, sort_keys=True)), (e["src"], e["dst"], e))
    E = list(edges.values())
    nw = 0
    for walk in vf.cover_walks(E, init, C.rng):
        cmds = [dict(op="cfg_reset", keys=keys, slots=slots)]
        for i in walk:
            c = to_cmd(E[i][2]["op"])
            if c["a"] == "copy" and C.rng.random() < 0.3: c["a"] = "copyctor"
            if c["a"] == "set": c[C.rng.choice(["typed", "sw", "any"])] = True
            cmds.append(c)
        try:
            res = drv.batch(cmds)
        except vf.Crash as ex:
            C.violation("crash", "%s after %s" % (ex, cmds[len(ex.done)] if len(ex.done) < len(cmds) else "?"), cmds)
            return
        for n, i in enumerate(walk):
            e = E[i][2]; r = res[n + 1]
            if r.get("obs") != e["obs"] or r.get("ret") != e["ret"]:
                C.violation("mismatch-" + e["op"]["a"], "after %s: code shows %s, specification says %s" % (cmds[n + 1], r, dict(obs=e["obs"], ret=e["ret"])), cmds[:n + 2])
                if len(C.viol) > 5: return
                break
        nw += 1
        C.count("steps_replayed", len(walk))
        if nw == 1: C.sample(dict(kind="replayed specification walk " + tag, steps=cmds[:12]))
    C.traces(nw)
    C.count("transitions_replayed", len(E))

def random_runs(C, drv, runs, length, slots, keys, nest, types):
    "record random runs of the code, validate with TLC against ConfigAbs"
    rng = C.rng
    ev = []
    for _ in range(runs):
        cmds = [dict(op="cfg_reset", keys=keys, slots=slots)]
        # track (in the harness) only whether nesting is allowed: depth of nested storage per slot is read back
        res = drv.batch(cmds)
        ev.append(dict(a="reset", s=0, d=0, k="", obs=res[0], ret=""))
        obs = res[0]
        for _ in range(length):
            a = rng.choice(["set"] * 5 + ["exch", "copy", "copy", "copyctor", "swap", "new", "new", "push", "push", "flatten", "flatten", "fresh"] + (["nest", "nest", "unnest", "unnest"] if nest else []))
            c = dict(op="cfg", a=a, s=rng.randint(1, slots), d=rng.randint(1, slots), k=rng.choice(keys))
            if a in ("set", "exch"):
                c.update(t=rng.choice(types), x=rng.randint(1, 3), typed=rng.random() < 0.5, sw=rng.random() < 0.5)
            if a == "nest" and any("c(" in v for v in obs[c["d"] - 1]["vis"]): continue
            if a == "unnest" and not obs[c["s"] - 1]["vis"][keys.index(c["k"])].startswith("c("): continue
            r = drv.batch([c])[0]
            if "exc" in r:
                C.violation("exception", "unexpected exception %s on %s" % (r, c), c); return
            obs = r["obs"]
            e = dict(a=a, s=c["s"], d=c["d"], k=c["k"], t=c.get("t", "-"), x=c.get("x", 0), obs=obs, ret=r["ret"])
            ev.append(e)
    tf = C.work.path("trace.ndjson")
    with open(tf, "w") as f:
        for e in ev: f.write(json.dumps(e) + "\n")
    cfg = "\n".join(["SPECIFICATION TSpec", "CONSTANTS", "Slot = {%s}" % ",".join(map(str, range(1, slots + 1))),
        "Key = {%s}" % ",".join('"%s"' % k for k in keys), "KeySeq <- K%d" % len(keys), "Val = {}", "VIEW TView", "POSTCONDITION Accepted", "CHECK_DEADLOCK FALSE"])
    for attempt in (1, 2):
        R = vf.tlc("ConfigTraceMC", cfg, C.work, name="trace%d" % attempt, workers=1, env=dict(TRACE=tf), expect_ok=False)
        if R.ok: break
    if not R.ok:
        rej = [o["rejected"] for o in R.out if "rejected" in o]
        if not rej: raise vf.CheckError("trace validation failed to run:\n" + R.log[-3000:])
        n = rej[0] - 1
        start = max(i for i in range(n + 1) if ev[i]["a"] == "reset")
        C.violation("trace-" + ev[n]["a"], "recorded step %s is not a behaviour of the specification; previous observation %s" % (json.dumps(ev[n]), json.dumps(ev[n-1]["obs"])), ev[start:n + 1])
    else:
        C.model(R)
        C.traces(runs)
        C.count("recorded_events_validated", len(ev))
        C.sample(dict(kind="recorded event", event=ev[len(ev) // 2]))

def run(C):
    B = vf.build(("driver",))
    drv = vf.Driver(B["driver"])
    typed = C.prop == "C07"
    T = C.thorough
    if not typed:
        plans = [(3, ["a"], "V1", False, 9, 1000), (2, ["a", "b"], "V1", False, 8, 1000), (2, ["a"], "V1", True, 9, 7)]
        if T: plans += [(3, ["a"], "V2", False, 9, 1000), (2, ["a", "b"], "V2", False, 8, 1000), (2, ["a"], "V1", True, 9, 11), (3, ["a"], "V1", True, 12, 7)]
    else:
        plans = [(2, ["a"], "VT", False, 8, 1000), (2, ["a", "b"], "V1", False, 8, 1000), (2, ["a"], "VS", True, 9, 6)]
        if T: plans += [(2, ["a", "b"], "V2T", False, 8, 1000), (3, ["a"], "VT", False, 9, 1000)]
    for n, (sl, ks, v, nest, live, lvl) in enumerate(plans):
        R = vf.tlc("ConfigMC", cfgtext(sl, ks, v, nest, live, lvl), C.work, name="mc%d" % n, timeout=3000)
        C.model(R)
        replay_graph(C, drv, R, sl, ks, "slots=%d keys=%s vals=%s nest=%s" % (sl, ks, v, nest))
        if C.viol: break
    if not C.viol:
        random_runs(C, drv, 400 if T else 40, 60, 3, ["a", "b", "c"], True, ["n", "s", "v"])
    drv.close()
    C.cov["exhaustive"] = False
    C.assumptions += ["handles, keys, values and references bounded as in the configurations listed in DESIGN.md; random runs use 3 handles, 3 keys, nesting depth 1"]

if __name__ == "__main__":
    vf.main(sys.argv[1], run)
