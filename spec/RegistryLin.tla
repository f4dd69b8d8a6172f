----------------------------- MODULE RegistryLin -----------------------------
(* Concurrent histories recorded from the real code: every call has the moments it began and ended and the
   result it gave.  A history is explained if the calls can be put in one order, in which each takes effect
   at once between its beginning and its end, so that every result is the one Registry gives.  Histories
   that can be explained are printed. *)
EXTENDS Registry
H == P.hist
VARIABLES h, done, reg
vars == <<h, done, reg>>
Ops(k) == H[k]
Init == h \in 1..Len(H) /\ done = {} /\ reg = Empty
May(i) == \A j \in (1..Len(Ops(h))) \ done : ~(Ops(h)[j].res < Ops(h)[i].inv)
Take(i) == LET o == Ops(h)[i] IN
           /\ May(i) /\ Result(reg, o) = o.r
           /\ done' = done \cup {i} /\ reg' = Effect(reg, o) /\ UNCHANGED h
Next == \E i \in (1..Len(Ops(h))) \ done : Take(i)
Spec == Init /\ [][Next]_vars
Explained == Cardinality(done) < Len(Ops(h)) \/ PrintT("@@" \o ToJson(h))
=============================================================================
