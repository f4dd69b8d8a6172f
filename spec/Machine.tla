------------------------------- MODULE Machine -------------------------------
(* A FLAME machine, its beam states, observers and settings, seen from outside.

   What the beam physics computes is not modelled: the state of a beam is the *term* (w) that
   says how it came about - the allocation it started from and the elements applied to it since.
   Everything a user may rely on is then a statement about terms: which elements are applied,
   in which order, in which direction, with which settings (C01, C03, C04), when snapshots are
   taken (C02), what a failed call leaves behind (C05), which passes are refused (C11), what
   copies share (C12), which charge states travel along (C13), who is found by name (C14).
   Equal terms stand for bit-equal beam states, whatever machine produced them.

   Kinds of elements (a property of the current configuration of a position):
     src   replaces the beam (forward), is transparent backward
     pas   has an inverse: forward and backward always work
     fwd   works forward, refuses backward
     str   like fwd, and replaces the charge states
     cav   works forward and remembers that pass; backward only undoes that pass
     brk   accepted as a configuration but refuses every pass
   For the linear simulation types ("lin") every pass is a forward pass, in the visiting order. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.MPARAM)
N == P.n
CFG(i) == 1..Len(P.cfgs[i])
Slots == 1..P.slots
Lin == P.sim = "lin"

VARIABLES cfg,    \* position -> number of its current configuration
          mem,    \* position -> what a cavity remembers of its last forward pass
          st,     \* slot -> beam state
          obs,    \* observed positions
          tr,     \* tracing on?
          hist    \* the calls made so far with what they must show
vars == <<cfg, mem, st, obs, tr, hist>>

NoMem == [on |-> FALSE]
Undef == [def |-> FALSE]
Conf(c, i) == P.cfgs[i][c[i]]

\* --- exact beams -------------------------------------------------------------
(* Where every element is a given integer matrix the terms have an exact meaning: x is the beam
   itself, one record per charge state with its centroid m0 and second moments m1
   (Vector: only m0; TransferMatrix: only m1). *)
Exact == P.exact # "no"
RECURSIVE Dot(_, _, _)
Dot(u, v, k) == IF k = 0 THEN 0 ELSE u[k]*v[k] + Dot(u, v, k-1)
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
MV(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v, Len(v))]
MM(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> Dot(A[i], Col(B, j), Len(B))]]
MMt(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B) |-> Dot(A[i], B[j], Len(A[i]))]]     \* A times B transposed
Through(T, x) ==
  CASE P.exact = "mom" -> [k \in 1..Len(x) |-> [m0 |-> MV(T, x[k].m0), m1 |-> MMt(MM(T, x[k].m1), T)]]
    [] P.exact = "vec" -> [k \in 1..Len(x) |-> [m0 |-> MV(T, x[k].m0), m1 |-> <<>>]]
    [] P.exact = "mat" -> [k \in 1..Len(x) |-> [m0 |-> <<>>, m1 |-> MM(T, x[k].m1)]]
(* C13: beam averages over charge states, weighted by charge: numerators over tot and tot^3 *)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k-1)
Tot(q) == Sum([k \in 1..Len(q) |-> q[k][2]], Len(q))
EnvNum(x, q) == [i \in 1..7 |-> Sum([k \in 1..Len(q) |-> q[k][2]*x[k].m0[i]], Len(q))]
Env2Num(x, q) == LET t == Tot(q)  A == EnvNum(x, q) IN
  [i \in 1..6 |-> [j \in 1..6 |->
     Sum([k \in 1..Len(q) |-> q[k][2]*(x[k].m1[i][j]*t*t + (x[k].m0[i]*t - A[i])*(x[k].m0[j]*t - A[j]))], Len(q))]]

\* --- beam states -----------------------------------------------------------
(* w: term; e: the part of the history on which the energies depend; q: charge states (z, weight) *)
Init0(k) == [def |-> TRUE, w |-> << <<"init", k>> >>, e |-> << <<"init", P.inits[k].e>> >>,
             q |-> P.inits[k].q, pos |-> 0, next |-> 0, init |-> k,
             x |-> IF Exact THEN P.inits[k].x ELSE <<>>]

\* energies certainly equal / certainly different: only these cases are exercised
SameE(a, b) == a = b
DiffE(a, b) == Len(a) # Len(b) \/ (a[1] # b[1])

(* One element applied to a beam. r: [ok, und (undetermined: never generated), d, m] *)
Pass(c, m, i, dir, d) ==
  LET K == Conf(c, i)
      back == dir = "b" /\ ~Lin
      op == << <<IF back THEN "b" ELSE "f", i, c[i]>> >>
      moved == [d EXCEPT !.w = @ \o op, !.pos = IF back THEN @ - K.len ELSE @ + K.len,
                         !.x = IF Exact THEN Through(IF back THEN K.inv ELSE K.mat, @) ELSE @]
      R(o, u, dd, mm) == [ok |-> o, und |-> u, d |-> dd, m |-> mm, p |-> FALSE]
  IN CASE K.kind = "src" ->
            IF back THEN R(TRUE, FALSE, d, m)
            ELSE R(TRUE, FALSE, [d EXCEPT !.w = << <<"src", i, c[i]>> >>,
                                          !.e = << <<"init", K.e>> >>, !.q = K.q, !.pos = 0,
                                          !.x = IF Exact THEN K.x ELSE @], m)
       [] K.kind = "pas" -> R(TRUE, FALSE, moved, m)
       [] K.kind = "fwd" -> IF back THEN R(FALSE, FALSE, d, m) ELSE R(TRUE, FALSE, moved, m)
       [] K.kind = "str" -> IF back THEN R(FALSE, FALSE, d, m)
                            ELSE R(TRUE, FALSE, [moved EXCEPT !.q = K.q, !.e = Append(@, <<"str", i, c[i]>>)], m)
       [] K.kind = "brk" -> R(FALSE, FALSE, d, m)
       [] K.kind = "cav" ->
            IF ~back
            THEN LET o == [moved EXCEPT !.e = Append(@, <<"cav", i, c[i], d.w>>)]
                 IN R(TRUE, FALSE, o, [on |-> TRUE, ine |-> d.e, oute |-> o.e, inw |-> d.w, q |-> d.q])
            ELSE IF ~m.on \/ Len(m.q) # Len(d.q) THEN R(FALSE, FALSE, d, m)
            ELSE IF SameE(d.e, m.oute) /\ d.q = m.q
            THEN [R(TRUE, FALSE, [moved EXCEPT !.w = Append(SubSeq(@, 1, Len(@)-1), <<"u", i, c[i], m.inw>>),
                                               !.e = m.ine], m) EXCEPT !.p = TRUE]
            ELSE IF DiffE(d.e, m.oute) \/ d.q # m.q THEN R(FALSE, FALSE, d, m)
            ELSE R(FALSE, TRUE, d, m)

(* The elements a propagation visits: from start, one after the other, at most |max|, staying inside *)
RECURSIVE Run(_, _, _, _, _, _, _)
Run(c, mm, d, i, left, dir, vis) ==
  IF i < 0 \/ i >= N \/ left = 0
  THEN [ok |-> TRUE, und |-> FALSE, d |-> [d EXCEPT !.next = i], m |-> mm, vis |-> vis]
  ELSE LET p == i + 1                      \* positions are 1.. here, 0.. in the code
           r == Pass(c, mm[p], p, dir, d)
           v == Append(vis, [i |-> i, dir |-> dir, p |-> r.p, ok |-> r.ok, pos |-> r.d.pos, q |-> r.d.q])
       IN IF r.und \/ ~r.ok
          THEN [ok |-> FALSE, und |-> r.und, d |-> Undef, m |-> [mm EXCEPT ![p] = r.m], vis |-> v]
          ELSE Run(c, [mm EXCEPT ![p] = r.m], r.d, IF dir = "b" THEN i-1 ELSE i+1, left-1, dir, v)
Abs(x) == IF x < 0 THEN -x ELSE x
Propagated(c, mm, d, start, max) == Run(c, mm, d, start, Abs(max), IF max < 0 THEN "b" ELSE "f", <<>>)

\* --- what a call must show ---------------------------------------------------
SlotView(s) == IF ~s.def THEN [def |-> FALSE]
               ELSE IF ~Exact THEN [def |-> TRUE, pos |-> s.pos, next |-> s.next, q |-> s.q]
               ELSE [def |-> TRUE, pos |-> s.pos, next |-> s.next, q |-> s.q, x |-> s.x,
                     avg |-> IF P.exact # "mom" THEN <<>> ELSE <<Tot(s.q), EnvNum(s.x, s.q), Env2Num(s.x, s.q)>>]
Views(S) == [k \in Slots |-> SlotView(S[k])]
Rec(a, ok, S, vis) == hist' = Append(hist, [a |-> a, ok |-> ok, vis |-> vis, sl |-> Views(S)])

On(a) == a \in {P.acts[k] : k \in 1..Len(P.acts)}
Same == UNCHANGED <<cfg, mem, st, obs, tr>>

Alloc(s, k) == /\ On("alloc")
               /\ st' = [st EXCEPT ![s] = Init0(k)]
               /\ Rec([op |-> "alloc", s |-> s, k |-> k], TRUE, st', <<>>)
               /\ UNCHANGED <<cfg, mem, obs, tr>>
AllocBad(k) == /\ On("allocbad") /\ k \in 1..P.nbadalloc
               /\ Same /\ Rec([op |-> "allocbad", k |-> k], FALSE, st, <<>>)
BuildBad(k) == /\ On("buildbad") /\ k \in 1..P.nbadbuild
               /\ Same /\ Rec([op |-> "buildbad", k |-> k], FALSE, st, <<>>)
Clone(s, t) == /\ On("clone") /\ s # t /\ st[s].def
               /\ st' = [st EXCEPT ![t] = [st[s] EXCEPT !.next = 0]]
               /\ Rec([op |-> "clone", s |-> s, t |-> t], TRUE, st', <<>>)
               /\ UNCHANGED <<cfg, mem, obs, tr>>
(* assignment copies the beam and its position; the next-element index stays the target's own *)
Assign(s, t) == /\ On("assign") /\ s # t /\ st[s].def
                /\ st' = [st EXCEPT ![t] = [st[s] EXCEPT !.next = IF st[t].def THEN st[t].next ELSE -2]]
                /\ Rec([op |-> "assign", s |-> s, t |-> t], TRUE, st', <<>>)
                /\ UNCHANGED <<cfg, mem, obs, tr>>
Write(s, k) == /\ On("write") /\ st[s].def
               /\ st' = [st EXCEPT ![s].w = Append(@, <<"w", k>>),
                                   ![s].e = IF P.writes[k].en THEN Append(@, <<"w", k>>) ELSE @]
               /\ Rec([op |-> "write", s |-> s, k |-> k], TRUE, st', <<>>)
               /\ UNCHANGED <<cfg, mem, obs, tr>>
Prop(s, a, n) == /\ On("prop") /\ st[s].def
                 /\ LET r == Propagated(cfg, mem, st[s], a, n) IN
                    /\ ~r.und
                    /\ st' = [st EXCEPT ![s] = r.d]
                    /\ mem' = r.m
                    /\ Rec([op |-> "prop", s |-> s, start |-> a, max |-> n], r.ok, st', r.vis)
                 /\ UNCHANGED <<cfg, obs, tr>>
Reconf(i, k) == /\ On("reconf") /\ k \in CFG(i)
                /\ cfg' = [cfg EXCEPT ![i] = k]
                /\ mem' = [mem EXCEPT ![i] = NoMem]
                /\ Rec([op |-> "reconf", i |-> i-1, k |-> k], TRUE, st, <<>>)
                /\ UNCHANGED <<st, obs, tr>>
ReconfBad(i, k) == /\ On("reconfbad") /\ k \in 1..P.nbadconf
                   /\ Same /\ Rec([op |-> "reconfbad", i |-> i-1, k |-> k], FALSE, st, <<>>)
Observe(i) == /\ On("observe")
              /\ obs' = IF i \in obs THEN obs \ {i} ELSE obs \cup {i}
              /\ Rec([op |-> "observe", i |-> i-1, on |-> i \in obs'], TRUE, st, <<>>)
              /\ UNCHANGED <<cfg, mem, st, tr>>
Trace == /\ On("trace") /\ tr' = ~tr
         /\ Rec([op |-> "trace", on |-> tr'], TRUE, st, <<>>)
         /\ UNCHANGED <<cfg, mem, st, obs>>

Init == /\ cfg = [i \in 1..N |-> 1]
        /\ mem = [i \in 1..N |-> NoMem]
        /\ st = [k \in Slots |-> IF k <= Len(P.start) THEN Init0(P.start[k]) ELSE Undef]
        /\ obs = {P.obs0[k] : k \in 1..Len(P.obs0)}
        /\ tr = FALSE
        /\ hist = <<>>
Starts == {P.starts[k] : k \in 1..Len(P.starts)}
Maxs == {P.maxs[k] : k \in 1..Len(P.maxs)}
(* in random simulations the arguments of calls are drawn here instead of being enumerated *)
Pick(S) == IF P.rand /\ S # {} THEN {RandomElement(S)} ELSE S
Call == \/ \E s \in Pick(Slots) :
               \/ \E k \in Pick(1..Len(P.inits)) : Alloc(s, k)
               \/ \E t \in Pick(Slots \ {s}) : Clone(s, t) \/ Assign(s, t)
               \/ \E k \in Pick(1..Len(P.writes)) : Write(s, k)
        \/ \E s \in Slots, a \in Pick(Starts), n \in Pick(Maxs) : Prop(s, a, n)
        \/ P.rand /\ \E s \in Slots, a \in Pick(Starts), n \in Pick(Maxs) : Prop(s, a, n)
        \/ \E k \in Pick(1..P.nbadalloc) : AllocBad(k)
        \/ \E k \in Pick(1..P.nbadbuild) : BuildBad(k)
        \/ \E i \in Pick({P.rpos[k] : k \in 1..Len(P.rpos)}) :
                \/ \E k \in Pick(CFG(i)) : Reconf(i, k)
                \/ \E k \in Pick(1..P.nbadconf) : ReconfBad(i, k)
        \/ \E i \in Pick({P.opos[k] : k \in 1..Len(P.opos)}) : Observe(i)
        \/ Trace
(* a finished behaviour is handed to the conformance check *)
Finish == /\ Len(hist) = P.depth
          /\ PrintT("@@" \o ToJson(hist))
          /\ hist' = Append(hist, [a |-> [op |-> "end"], ok |-> TRUE, vis |-> <<>>, sl |-> Views(st)])
          /\ Same
Next == (Len(hist) < P.depth /\ Call) \/ Finish
Spec == Init /\ [][Next]_vars

\* --- properties of the specification itself -----------------------------------
Last == hist[Len(hist)]
Slen(i) == IF Conf(cfg, i+1).kind = "src" THEN 0 ELSE Conf(cfg, i+1).len
(* C01 visits are consecutive and inside, at most |max|; stop early only at the ends or at a refusal *)
VisitsOK == (hist # <<>> /\ Last.a.op = "prop") =>
   LET v == Last.vis  a == Last.a  sg == IF a.max < 0 THEN -1 ELSE 1 IN
   /\ \A k \in 1..Len(v) : v[k].i = a.start + sg*(k-1) /\ v[k].i \in 0..N-1
   /\ Len(v) <= Abs(a.max)
   /\ Last.ok => (Len(v) = Abs(a.max) \/ a.start + sg*Len(v) \notin 0..N-1)
   /\ Last.ok => Last.sl[a.s].next = a.start + sg*Len(v)
   /\ ~Last.ok => v # <<>> /\ ~v[Len(v)].ok
(* C01 cutting a propagation into two parts changes nothing *)
SplitOK == \A s \in Slots : st[s].def => \A a \in Starts, n \in Maxs, k \in 1..2 :
   LET r == Propagated(cfg, mem, st[s], a, n)
       sg == IF n < 0 THEN -1 ELSE 1
       r1 == Propagated(cfg, mem, st[s], a, sg*k)
       r2 == Propagated(cfg, r1.m, r1.d, r1.d.next, n - sg*k)
   IN (k < Abs(n) /\ ~r.und /\ r.ok /\ a \in 0..N-1 /\ r1.d.next \in 0..N-1) => (r2.d = r.d /\ r2.m = r.m)
(* C11 backward over the range just passed forward gives back energies, charge states and position *)
UndoOK == \A s \in Slots : st[s].def => \A a \in Starts, n \in Maxs :
   (n > 0 /\ a \in 0..N-1 /\ ~Lin) =>
   LET r == Propagated(cfg, mem, st[s], a, n)
       r2 == Propagated(cfg, r.m, r.d, r.d.next-1, -Len(r.vis))
       inv == \A k \in 1..Len(r.vis) : Conf(cfg, r.vis[k].i+1).kind \in {"pas", "cav"}
   IN (r.ok /\ inv) => (r2.ok /\ r2.d.e = st[s].e /\ r2.d.q = st[s].q /\ r2.d.pos = st[s].pos /\ r2.d.x = st[s].x)
(* C05 a refused call that is not a propagation leaves everything; a refused propagation only its state *)
FailOK == [][LET h == hist'[Len(hist')] IN ~h.ok =>
              /\ cfg' = cfg /\ obs' = obs
              /\ \A s \in Slots : (h.a.op = "prop" /\ h.a.s = s) \/ st'[s] = st[s]
              /\ (h.a.op # "prop" => mem' = mem)]_hist
(* C12 no call changes a state other than the one it names *)
IndepOK == [][LET a == hist'[Len(hist')].a
                  tgt == CASE a.op \in {"alloc", "write", "prop"} -> {a.s}
                           [] a.op \in {"clone", "assign"} -> {a.t}
                           [] OTHER -> {} IN
              \A s \in Slots : s \in tgt \/ st'[s] = st[s]]_hist

View == hist
=============================================================================
