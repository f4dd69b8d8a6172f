------------------------------- MODULE Config --------------------------------
(* The design in the code: handles hold references to shared maps, copied on write.
   A handle is [v |-> reference of the inner map, i |-> reference of the (immutable) outer map or 0].
   TLC checks that this design implements ConfigAbs (value semantics) for all histories within
   the constants; the transitions, which distinguish the sharing structure, are exported and
   replayed on the real code. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Slot, Key, KeySeq, Val, NestOK, MaxLive, MaxLevel

Ref == 1..MaxLive
RNo == [t |-> "-", x |-> 0, v |-> 0, i |-> 0]
RMap0 == [k \in Key |-> RNo]

VARIABLES h,      \* [Ref -> map]   map: [Key -> [t, x, v, i]]
          sl,     \* [Slot -> [v, i]]
          op      \* label of the last step (observation only)
vars == <<h, sl, op>>
cview == <<h, sl>>

\* ------- reference bookkeeping
Kids(m) == UNION {{m[k].v, m[k].i} : k \in Key} \ {0}
RECURSIVE Reach(_, _)
Reach(hh, S) == LET T == S \cup UNION {Kids(hh[r]) : r \in S} IN IF T = S THEN S ELSE Reach(hh, T)
Roots(ss) == UNION {{ss[s].v, ss[s].i} : s \in Slot} \ {0}

\* number of owners of a reference: handles plus occurrences inside live maps
Owners(hh, ss, r) ==
   LET live == Reach(hh, Roots(ss)) IN
   Cardinality({<<s, f>> \in Slot \X {"v", "i"} : ss[s][f] = r}) +
   Cardinality({<<q, k, f>> \in live \X Key \X {"v", "i"} : hh[q][k][f] = r})

Free(hh, ss) == CHOOSE r \in Ref : r \notin Reach(hh, Roots(ss)) /\ \A q \in Ref : q < r => q \in Reach(hh, Roots(ss))
Room(hh, ss, n) == Cardinality(Reach(hh, Roots(ss))) + n <= MaxLive
\* canonical form: unreachable cells cleared, references renumbered by first visit
RECURSIVE Visit(_, _, _)
Visit(hh, todo, seen) ==
   IF todo = <<>> THEN seen
   ELSE LET r == Head(todo) IN
        IF r = 0 \/ \E j \in 1..Len(seen) : seen[j] = r THEN Visit(hh, Tail(todo), seen)
        ELSE LET RECURSIVE KidSeq(_)
                 KidSeq(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : TRUE IN
                               <<hh[r][k].v, hh[r][k].i>> \o KidSeq(ks \ {k})
             IN Visit(hh, KidSeq(Key) \o Tail(todo), Append(seen, r))
RECURSIVE RootSeq(_, _)
RootSeq(ss, S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : TRUE IN <<ss[s].v, ss[s].i>> \o RootSeq(ss, S \ {s})
Put(hh, ss) ==
   LET ord == Visit(hh, RootSeq(ss, Slot), <<>>)
       nw(r) == IF r = 0 THEN 0 ELSE CHOOSE j \in 1..Len(ord) : ord[j] = r
       nv(x) == [x EXCEPT !.v = nw(x.v), !.i = nw(x.i)]
   IN /\ h' = [r \in Ref |-> IF r <= Len(ord) THEN [k \in Key |-> nv(hh[ord[r]][k])] ELSE RMap0]
      /\ sl' = [s \in Slot |-> [v |-> nw(ss[s].v), i |-> nw(ss[s].i)]]

\* copy-on-write: state <<heap, slots>> in which slot s owns its inner map alone
CowX(hh, ss, s, extra) == IF Owners(hh, ss, ss[s].v) + extra = 1 THEN <<hh, ss>>
                  ELSE LET r == Free(hh, ss) IN <<[hh EXCEPT ![r] = hh[ss[s].v]], [ss EXCEPT ![s].v = r]>>
Cow(hh, ss, s) == CowX(hh, ss, s, 0)
\* the value being stored may itself own the map that is about to be written (a copy of the handle)
RawSet(hh, ss, s, k, x) == LET c == CowX(hh, ss, s, IF ss[s].v \in {x.v, x.i} THEN 1 ELSE 0) IN <<[c[1] EXCEPT ![c[2][s].v][k] = x], c[2]>>
ROver(a, b) == [k \in Key |-> IF a[k].t # "-" THEN a[k] ELSE b[k]]
OutMap(hh, c) == IF c.i = 0 THEN RMap0 ELSE hh[c.i]
RVisible(hh, c) == ROver(hh[c.v], OutMap(hh, c))
IsEmpty(m) == \A k \in Key : m[k].t = "-"
HasNest(hh, c) == \E k \in Key : RVisible(hh, c)[k].t = "c"

\* Initially every handle has its own empty map.
Init == /\ h = [r \in Ref |-> RMap0]
        /\ sl = [s \in Slot |-> [v |-> s, i |-> 0]]
        /\ op = [a |-> "init", s |-> 0, d |-> 0, k |-> "", k2 |-> "", v |-> RNo]

Lbl(a, s, d, k, k2, v) == op' = [a |-> a, s |-> s, d |-> d, k |-> k, k2 |-> k2, v |-> v]

Set(s, k, v) == LET x == [t |-> v.t, x |-> v.x, v |-> 0, i |-> 0] IN
   /\ Room(h, sl, 1)
   /\ LET c == RawSet(h, sl, s, k, x) IN Put(c[1], c[2])
   /\ Lbl("set", s, 0, k, "", x)
Exch(s, k, v) == LET x == [t |-> v.t, x |-> v.x, v |-> 0, i |-> 0] IN
   /\ Room(h, sl, 1)
   /\ LET c == RawSet(h, sl, s, k, x) IN Put(c[1], c[2])
   /\ Lbl("exch", s, 0, k, "", x)
Copy(s, d) == /\ Put(h, [sl EXCEPT ![d] = sl[s]]) /\ Lbl("copy", s, d, "", "", RNo)
Swap(s, d) == /\ Put(h, [sl EXCEPT ![d] = sl[s], ![s] = sl[d]]) /\ Lbl("swap", s, d, "", "", RNo)
New(s, d) ==
   /\ Room(h, sl, 2)
   /\ LET c == sl[s]
          r1 == Free(h, sl)
          r2 == CHOOSE r \in Ref : r # r1 /\ r \notin Reach(h, Roots(sl))
          h1 == [h EXCEPT ![r1] = RMap0]
      IN IF IsEmpty(h[c.v]) THEN Put(h1, [sl EXCEPT ![d] = [v |-> r1, i |-> c.i]])
         ELSE IF IsEmpty(OutMap(h, c)) THEN Put(h1, [sl EXCEPT ![d] = [v |-> r1, i |-> c.v]])
         ELSE Put([h1 EXCEPT ![r2] = RVisible(h, c)], [sl EXCEPT ![d] = [v |-> r1, i |-> r2]])
   /\ Lbl("new", s, d, "", "", RNo)
\* flatten of handle s: copy-on-write first, then merge
Flat(hh, ss, s) == IF ss[s].i = 0 THEN <<hh, ss>>
                   ELSE LET c == Cow(hh, ss, s) IN
                        <<[c[1] EXCEPT ![c[2][s].v] = RVisible(hh, ss[s])], [c[2] EXCEPT ![s].i = 0]>>
Flatten(s) == /\ Room(h, sl, 1) /\ LET c == Flat(h, sl, s) IN Put(c[1], c[2]) /\ Lbl("flatten", s, 0, "", "", RNo)
Push(s) == /\ Room(h, sl, 2)
           /\ LET c == Flat(h, sl, s)
                  r == Free(c[1], c[2])
              IN Put([c[1] EXCEPT ![r] = RMap0], [c[2] EXCEPT ![s] = [v |-> r, i |-> c[2][s].v]])
           /\ Lbl("push", s, 0, "", "", RNo)
Fresh(s) == /\ Room(h, sl, 1)
            /\ LET r == Free(h, sl) IN Put([h EXCEPT ![r] = RMap0], [sl EXCEPT ![s] = [v |-> r, i |-> 0]])
            /\ Lbl("fresh", s, 0, "", "", RNo)
Nest(s, k, d) == /\ NestOK /\ Room(h, sl, 1) /\ ~HasNest(h, sl[d])
                 /\ LET c == RawSet(h, sl, s, k, [t |-> "c", x |-> 0, v |-> sl[d].v, i |-> sl[d].i]) IN Put(c[1], c[2])
                 /\ Lbl("nest", s, d, k, "", RNo)
Unnest(s, k, d) == /\ NestOK /\ RVisible(h, sl[s])[k].t = "c"
                   /\ LET x == RVisible(h, sl[s])[k] IN Put(h, [sl EXCEPT ![d] = [v |-> x.v, i |-> x.i]])
                   /\ Lbl("unnest", s, d, k, "", RNo)

Next == \/ \E s \in Slot, k \in Key, v \in Val : Set(s, k, v) \/ Exch(s, k, v)
        \/ \E s, d \in Slot : Copy(s, d) \/ New(s, d)
        \/ \E s, d \in Slot : s < d /\ Swap(s, d)
        \/ \E s \in Slot : Push(s) \/ Flatten(s) \/ Fresh(s)
        \/ \E s, d \in Slot, k \in Key : Nest(s, k, d) \/ Unnest(s, k, d)

Spec == Init /\ [][Next]_vars

\* ------- refinement mapping to value semantics
RECURSIVE Val0(_, _)
Cfg0(hh, v, i) == [own |-> [k \in Key |-> Val0(hh, hh[v][k])],
                   out |-> IF i = 0 THEN [k \in Key |-> Val0(hh, RNo)] ELSE [k \in Key |-> Val0(hh, hh[i][k])]]
Val0(hh, x) == IF x.t = "c" THEN [t |-> "c", x |-> 0, n |-> <<Cfg0(hh, x.v, x.i)>>]
               ELSE [t |-> x.t, x |-> x.x, n |-> <<>>]
AbsCfg == [s \in Slot |-> Cfg0(h, sl[s].v, sl[s].i)]
A == INSTANCE ConfigAbs WITH cfg <- AbsCfg
\* every step of the design is the abstract step of the same name
StepOf == LET o == op' IN
   CASE o.a \in {"set", "exch"} -> A!ASet(o.s, o.k, [t |-> o.v.t, x |-> o.v.x, n |-> <<>>])
     [] o.a = "copy"    -> A!ACopy(o.s, o.d)
     [] o.a = "swap"    -> A!ASwap(o.s, o.d)
     [] o.a = "new"     -> A!ANew(o.s, o.d)
     [] o.a = "push"    -> A!APush(o.s)
     [] o.a = "flatten" -> A!AFlatten(o.s)
     [] o.a = "fresh"   -> A!AFresh(o.s)
     [] o.a = "nest"    -> A!ANest(o.s, o.k, o.d)
     [] o.a = "unnest"  -> A!AUnnest(o.s, o.k, o.d)
Refines == A!AInit /\ [][StepOf]_vars
IndependentI == A!Independent

TypeOK == /\ \A s \in Slot : sl[s].v \in Ref /\ sl[s].i \in 0..MaxLive
          \* an outer map shared with someone is never the inner map of a handle that owns it alone
          /\ \A s \in Slot : sl[s].i # 0 => sl[s].i \in Reach(h, Roots(sl))

\* ------- export of transitions for replay
Export == PrintT("@@" \o ToJson([src |-> ToString(cview), dst |-> ToString(cview'),
                                 op |-> op', obs |-> A!ObsAll',
                                 ret |-> IF op'.a = "exch" THEN A!Ret(AbsCfg[op'.s], op'.k) ELSE ""]))
LevelBound == TLCGet("level") < MaxLevel
==============================================================================
