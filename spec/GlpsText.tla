------------------------------ MODULE GlpsText -------------------------------
(* Runs lexer and parser specification on given texts, one TLC state per token. *)
EXTENDS GlpsLex
Progs == ndJsonDeserialize(IOEnv.GLPS_IN)      \* id, s: bytes, lat
VARIABLES i, k, ps, ks
Init == i \in 1..Len(Progs) /\ k = [nx |-> 1, ln |-> 1, t |-> ";"] /\ ps = PS0 /\ ks = <<>>
Next == IF ~Stops(k)
        THEN LET x == TokenAt(Progs[i].s, k.nx, k.ln) IN
             /\ i' = i /\ k' = [nx |-> x.nx, ln |-> x.ln, t |-> x.t] /\ ps' = Eat(ps, x) /\ ks' = Append(ks, [t |-> x.t, ln |-> x.ln])
        ELSE /\ k.t # "done"
             /\ PrintT("@@" \o ToJson([id |-> Progs[i].id, o |-> IF Progs[i].lat THEN Outcome(ps) ELSE VarsOnly(ps), k |-> ks]))
             /\ i' = i /\ k' = [nx |-> 0, ln |-> 0, t |-> "done"] /\ ps' = PS0 /\ ks' = <<>>
Spec == Init /\ [][Next]_<<i, k, ps, ks>>
View == <<i, k>>
Sane == RefsDefined(ps)
==============================================================================
