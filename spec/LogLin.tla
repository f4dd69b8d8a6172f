------------------------------- MODULE LogLin -------------------------------
(* Concurrent histories of messages and sink exchanges recorded from the real code: explained if the calls
   can be put in one order, each at once between its beginning and its end, so that every message that
   reaches the threshold was delivered once to the sink installed then. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.MPARAM)
H == P.hist
VARIABLES h, done, sink
vars == <<h, done, sink>>
Ops == H[h].ops
Init == h \in 1..Len(H) /\ done = {} /\ sink = H[h].sink0
May(i) == \A j \in (1..Len(Ops)) \ done : ~(Ops[j].res < Ops[i].inv)
Take(i) == LET o == Ops[i] IN
           /\ May(i)
           /\ CASE o.a = "sink" -> sink' = o.k
                [] o.a = "log" -> sink' = sink /\ o.to = (IF o.l >= H[h].thr /\ sink # 0 THEN <<sink>> ELSE <<>>)
           /\ done' = done \cup {i} /\ UNCHANGED h
Next == \E i \in (1..Len(Ops)) \ done : Take(i)
Spec == Init /\ [][Next]_vars
Explained == Cardinality(done) < Len(Ops) \/ PrintT("@@" \o ToJson(h))
=============================================================================
