------------------------------ MODULE Registry ------------------------------
(* The registry of simulation and element types, as a value and the effect and result of each call.
   reg[n] = [on, v, els]: is n registered, with which state class, and with which class for each element
   name (0: none).  A machine carries everything it needs: what it was built from is not affected by what
   happens to the registry afterwards.  Used by RegistryMC (all call sequences) and RegistryLin (concurrent
   histories recorded from the real code). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.MPARAM)
Rng(q) == {q[i] : i \in 1..Len(q)}
Sims == Rng(P.sims)
Els == Rng(P.els)
NoSim == [on |-> FALSE, v |-> 0, els |-> [e \in Els |-> 0]]
Empty == [n \in Sims |-> NoSim]

Ok(r) == [ok |-> TRUE, v |-> r.v, els |-> r.els]
Refused == [ok |-> FALSE, v |-> 0, els |-> <<>>]
Plain == [ok |-> TRUE, v |-> 0, els |-> <<>>]
CanBuild(reg, n, es) == reg[n].on /\ \A i \in 1..Len(es) : reg[n].els[es[i]] # 0
Result(reg, a) ==
    CASE a.a = "regS" -> IF reg[a.n].on THEN Refused ELSE Plain
      [] a.a = "regE" -> IF reg[a.n].on /\ reg[a.n].els[a.e] = 0 THEN Plain ELSE Refused
      [] a.a = "clear" -> Plain
      [] a.a = "build" -> IF a.boom = 0 /\ CanBuild(reg, a.n, a.es)
                          THEN [ok |-> TRUE, v |-> reg[a.n].v, els |-> [i \in 1..Len(a.es) |-> reg[a.n].els[a.es[i]]]]
                          ELSE Refused
Effect(reg, a) ==
    IF ~Result(reg, a).ok THEN reg
    ELSE CASE a.a = "regS" -> [reg EXCEPT ![a.n] = [on |-> TRUE, v |-> a.v, els |-> [e \in Els |-> 0]]]
           [] a.a = "regE" -> [reg EXCEPT ![a.n].els[a.e] = a.v]
           [] a.a = "clear" -> Empty
           [] OTHER -> reg
=============================================================================
