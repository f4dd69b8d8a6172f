------------------------------- MODULE PyApi -------------------------------
(* The Python objects: machines, states and arrays held in named places, created, used, misused and
   dropped in any order.

   A machine is described by its lattice and the chosen setting of every element; a state by the term of
   operations that produced it; an array read from a state by the term of that state then, plus the changes
   made to the array itself.  Objects refer to nothing but their own description: whatever happens to
   others, and whatever calls fail in between, an object keeps its description (that is the property; the
   executor evaluates descriptions in a clean process).  A misuse raises an exception and changes nothing.
   A query, and any use of objects not tracked here, changes nothing. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.MPARAM)
Machs == 1..P.machs
Sts == 1..P.states
Arrs == 1..P.arrs
Lats == 1..Len(P.lats)
N(l) == P.lats[l].n
KindOf(l) == P.lats[l].kind
None == [on |-> FALSE]
Range0(q) == {q[i] : i \in 1..Len(q)}

VARIABLES mach, st, arr, hist
vars == <<mach, st, arr, hist>>

Init == /\ mach = [m \in Machs |-> None] /\ st = [s \in Sts |-> None] /\ arr = [a \in Arrs |-> None] /\ hist = <<>>

On(x) == \E k \in 1..Len(P.acts) : P.acts[k] = x
\* the objects as they must be after the call
View == [mach |-> mach', st |-> st', arr |-> arr']
Do(a) == Len(hist) < P.depth /\ hist' = Append(hist, a @@ [view |-> View])

\* --- machines ----------------------------------------------------------------
New(m, l, how) == /\ On("new")
                  /\ mach' = [mach EXCEPT ![m] = [on |-> TRUE, lat |-> l, sel |-> [i \in 1..N(l) |-> 1]]]
                  /\ UNCHANGED <<st, arr>> /\ Do([op |-> "new", m |-> m, l |-> l, how |-> how, ok |-> TRUE])
DropM(m) == /\ On("drop") /\ mach[m].on
            /\ mach' = [mach EXCEPT ![m] = None]
            /\ UNCHANGED <<st, arr>> /\ Do([op |-> "dropm", m |-> m, ok |-> TRUE])
Reconf(m, i, k, how) ==
    /\ On("reconf") /\ mach[m].on /\ i \in 1..N(mach[m].lat) /\ k \in 1..P.lats[mach[m].lat].alts[i]
    /\ mach' = [mach EXCEPT ![m].sel[i] = k]
    /\ UNCHANGED <<st, arr>> /\ Do([op |-> "reconf", m |-> m, i |-> i, k |-> k, how |-> how, ok |-> TRUE])

\* number of charge states: of a new state, and after elements have been visited (a source at the start sets its own)
Beams(l, k) == IF k = 0 THEN P.lats[l].q ELSE P.initq[KindOf(l)][k]
After(l, vis, max, q) == IF P.lats[l].src > 0 /\ max >= 0 /\ (\E i \in 1..Len(vis) : vis[i] = 0) THEN P.lats[l].src ELSE q
\* --- states --------------------------------------------------------------------
Alloc(s, m, k) == /\ On("alloc") /\ mach[m].on
                  /\ st' = [st EXCEPT ![s] = [on |-> TRUE, kind |-> KindOf(mach[m].lat), q |-> Beams(mach[m].lat, k), t |-> <<[f |-> "alloc", lat |-> mach[m].lat, k |-> k]>>]]
                  /\ UNCHANGED <<mach, arr>> /\ Do([op |-> "alloc", s |-> s, m |-> m, k |-> k, ok |-> TRUE])
Clone(s, r) == /\ On("clone") /\ st[r].on
               /\ st' = [st EXCEPT ![s] = st[r]]
               /\ UNCHANGED <<mach, arr>> /\ Do([op |-> "clone", s |-> s, r |-> r, ok |-> TRUE])
DropS(s) == /\ On("drop") /\ st[s].on
            /\ st' = [st EXCEPT ![s] = None]
            /\ UNCHANGED <<mach, arr>> /\ Do([op |-> "drops", s |-> s, ok |-> TRUE])

\* elements visited from start (0-based) for a signed count, in order
Count(n, start, max) == IF max >= 0 THEN (IF start >= n THEN 0 ELSE IF max < n - start THEN max ELSE n - start)
                        ELSE (IF start >= n THEN 0 ELSE IF -max < start + 1 THEN -max ELSE start + 1)
VisitSeq(n, start, max) == [k \in 1..Count(n, start, max) |-> IF max >= 0 THEN start + k - 1 ELSE start - k + 1]
Run(m, start, max) == [f |-> "prop", lat |-> mach[m].lat, sel |-> mach[m].sel, start |-> start, max |-> max]
\* obs: which elements are observed (a list of 0-based indices); keep: where the last observed state goes (0: nowhere)
Prop(s, m, start, max, o, keep) ==
    LET l == mach[m].lat
        n == N(l)
        fits == st[s].kind = KindOf(l)
        vis == VisitSeq(n, start, max)
        obs == P.obs[o]
        okobs == \A i \in 1..Len(obs) : obs[i] < n
        want == {obs[i] : i \in 1..Len(obs)}
        seen == SelectSeq(vis, LAMBDA x : x \in want)
        ok == okobs /\ (fits \/ vis = <<>>)
        lastk == CHOOSE k \in 1..Len(vis) : vis[k] = seen[Len(seen)]
        after == [st EXCEPT ![s].t = Append(@, Run(m, start, max)), ![s].q = After(l, vis, max, @)]
    IN /\ On("prop") /\ st[s].on /\ mach[m].on
       /\ ~fits => vis # <<>>
       /\ max < 0 => P.lats[l].back = 1     \* refusals of backward runs are the subject of Machine.tla
       /\ keep # 0 => keep # s /\ ok /\ seen # <<>>
       /\ st' = IF ~ok THEN st
                ELSE IF keep = 0 THEN after
                ELSE [after EXCEPT ![keep] = [on |-> TRUE, kind |-> st[s].kind, q |-> After(l, SubSeq(vis, 1, lastk), max, st[s].q),
                        t |-> Append(st[s].t, Run(m, start, IF max >= 0 THEN lastk ELSE 0 - lastk))]]
       /\ UNCHANGED <<mach, arr>>
       /\ Do([op |-> "prop", s |-> s, m |-> m, start |-> start, max |-> max, obs |-> obs, keep |-> keep, ok |-> ok, seen |-> seen, fits |-> fits])
Set(s, a, v) == /\ On("set") /\ st[s].on /\ a \in 1..P.attrs[st[s].kind]
                /\ st' = [st EXCEPT ![s].t = Append(@, [f |-> "set", a |-> a, v |-> v])]
                /\ UNCHANGED <<mach, arr>> /\ Do([op |-> "set", s |-> s, a |-> a, v |-> v, ok |-> TRUE])

\* --- arrays: snapshots ----------------------------------------------------------
Read(x, s, a) == /\ On("read") /\ st[s].on /\ a \in 1..P.attrs[st[s].kind]
                 /\ arr' = [arr EXCEPT ![x] = [on |-> TRUE, kind |-> st[s].kind, q |-> st[s].q, a |-> a, t |-> st[s].t, scr |-> 0]]
                 /\ UNCHANGED <<mach, st>> /\ Do([op |-> "read", x |-> x, s |-> s, a |-> a, ok |-> TRUE])
Scribble(x) == /\ On("scribble") /\ arr[x].on
               /\ arr' = [arr EXCEPT ![x].scr = @ + 1]
               /\ UNCHANGED <<mach, st>> /\ Do([op |-> "scribble", x |-> x, ok |-> TRUE])
\* an array of one entry per charge state fits only a state with as many
Write(s, x) == LET ok == P.perq[arr[x].kind][arr[x].a] = 0 \/ arr[x].q = st[s].q IN
               /\ On("write") /\ arr[x].on /\ st[s].on /\ arr[x].kind = st[s].kind /\ Len(arr[x].t) < 6
               /\ st' = IF ok THEN [st EXCEPT ![s].t = Append(@, [f |-> "write", a |-> arr[x].a, t |-> arr[x].t, scr |-> arr[x].scr])] ELSE st
               /\ UNCHANGED <<mach, arr>> /\ Do([op |-> "write", s |-> s, x |-> x, ok |-> ok])

\* --- misuse, queries, other objects ----------------------------------------------
Have(k, m, s) == /\ (P.misuse[k] \in {"m", "ms"} => mach[m].on)
                 /\ (P.misuse[k] \in {"s", "ms"} => st[s].on)
Misuse(k, m, s) == /\ On("misuse") /\ Have(k, m, s)
                   /\ (P.misuse[k] \in {"s", "none"} => m = 1) /\ (P.misuse[k] \in {"m", "none"} => s = 1)
                   /\ UNCHANGED <<mach, st, arr>> /\ Do([op |-> "misuse", k |-> k, m |-> m, s |-> s, ok |-> FALSE])
Query(m, s) == /\ On("query") /\ mach[m].on /\ st[s].on
               /\ UNCHANGED <<mach, st, arr>> /\ Do([op |-> "query", m |-> m, s |-> s, ok |-> TRUE])
Other == /\ On("other") /\ UNCHANGED <<mach, st, arr>> /\ Do([op |-> "other", ok |-> TRUE])

Next == \/ \E m \in Machs, l \in Range0(P.use), how \in 1..P.hows : New(m, l, how)
        \/ \E m \in Machs : DropM(m)
        \/ \E m \in Machs, i \in 1..P.maxn, k \in 1..3, how \in 1..2 : Reconf(m, i, k, how)
        \/ \E s \in Sts, m \in Machs, k \in 0..P.inits : Alloc(s, m, k)
        \/ \E s, r \in Sts : Clone(s, r)
        \/ \E s \in Sts : DropS(s)
        \/ \E s \in Sts, m \in Machs, start \in Range0(P.starts), max \in Range0(P.maxes), o \in 1..Len(P.obs), keep \in 0..P.states : Prop(s, m, start, max, o, keep)
        \/ \E s \in Sts, a \in 1..P.maxattr, v \in 1..P.vals : Set(s, a, v)
        \/ \E x \in Arrs, s \in Sts, a \in 1..P.maxattr : Read(x, s, a)
        \/ \E x \in Arrs : Scribble(x)
        \/ \E s \in Sts, x \in Arrs : Write(s, x)
        \/ \E k \in 1..Len(P.misuse), m \in Machs, s \in Sts : Misuse(k, m, s)
        \/ \E m \in Machs, s \in Sts : Query(m, s)
        \/ Other
Spec == Init /\ [][Next]_vars

\* --- the property, on the model ------------------------------------------------
Last == hist'[Len(hist')]
FailedCallsChangeNothing == [][~Last.ok => UNCHANGED <<mach, st, arr>>]_vars
OnlyNamedObjectsChange == [][/\ \A m \in Machs : mach'[m] # mach[m] => Last.op \in {"new", "dropm", "reconf"} /\ Last.m = m
                             /\ \A s \in Sts : st'[s] # st[s] => Last.op \in {"alloc", "clone", "drops", "prop", "set", "write"} /\ (Last.s = s \/ (Last.op = "prop" /\ Last.keep = s))
                             /\ \A x \in Arrs : arr'[x] # arr[x] => Last.op \in {"read", "scribble"} /\ Last.x = x]_vars
SameKind == \A s \in Sts : st[s].on => \A i \in 2..Len(st[s].t) : st[s].t[i].f = "prop" => KindOf(st[s].t[i].lat) = st[s].kind

Export == Len(hist) < P.depth \/ PrintT("@@" \o ToJson(hist))
=============================================================================
