----------------------------- MODULE RegistryMC -----------------------------
(* All sequences of calls on the registry by one caller, with machines kept and used later. *)
EXTENDS Registry
VARIABLES reg, mach, hist, fin
vars == <<reg, mach, hist, fin>>
Ms == 1..P.machs
NoMach == [on |-> FALSE, v |-> 0, els |-> <<>>]
Init == reg = Empty /\ mach = [m \in Ms |-> NoMach] /\ hist = <<>> /\ fin = FALSE
Lists == {<<>>} \cup {<<e>> : e \in Els} \cup {<<e, f>> : e, f \in Els}
Calls == [a : {"regS"}, n : Sims, v : 1..P.vers]
         \cup [a : {"regE"}, n : Sims, e : Els, v : 1..P.vers]
         \cup {[a |-> "clear"]}
         \cup [a : {"build"}, n : Sims, es : Lists, boom : 0..P.boom, m : Ms]
Call(a) == LET r == Result(reg, a) IN
           /\ reg' = Effect(reg, a)
           /\ mach' = IF a.a = "build" /\ r.ok THEN [mach EXCEPT ![a.m] = [on |-> TRUE, v |-> r.v, els |-> r.els]] ELSE mach
           /\ hist' = Append(hist, [call |-> a, r |-> r])
\* a kept machine makes states and accepts new settings for its elements, of the classes it was built with
Use(m) == /\ mach[m].on /\ UNCHANGED <<reg, mach>>
          /\ hist' = Append(hist, [call |-> [a |-> "use", m |-> m], r |-> [ok |-> TRUE, v |-> mach[m].v, els |-> mach[m].els]])
Drop(m) == /\ mach[m].on /\ mach' = [mach EXCEPT ![m] = NoMach] /\ UNCHANGED reg
           /\ hist' = Append(hist, [call |-> [a |-> "drop", m |-> m], r |-> Plain])
Step == (\E a \in Calls : Call(a)) \/ (P.use = 1 /\ \E m \in Ms : Use(m) \/ Drop(m))
Next == \/ Len(hist) < P.depth /\ fin' = FALSE /\ Step
        \/ Len(hist) = P.depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<reg, mach, hist>>
Spec == Init /\ [][Next]_vars

\* --- the property, on the model ------------------------------------------------------------------
Last == hist'[Len(hist')]
RefusedHasNoEffect == [][Len(hist') > Len(hist) /\ ~Last.r.ok => UNCHANGED <<reg, mach>>]_vars
\* a registered class is replaced only by way of clearing
Exclusive == [][\A n \in Sims : Len(hist') > Len(hist) /\ reg[n].on /\ Last.call.a # "clear" =>
                   /\ reg'[n].on /\ reg'[n].v = reg[n].v
                   /\ \A e \in Els : reg[n].els[e] # 0 => reg'[n].els[e] = reg[n].els[e]]_vars
\* at most one success per name between two clearings
Idx == 1..Len(hist)
OncePerEpoch == \A i, j \in Idx : (i < j /\ hist[i].r.ok /\ hist[j].r.ok /\ hist[i].call.a = "regS" /\ hist[j].call.a = "regS" /\ hist[i].call.n = hist[j].call.n)
                                     => \E k \in i..j : hist[k].call.a = "clear"
ElementsNeedSim == \A n \in Sims : ~reg[n].on => reg[n] = NoSim
Export == ~fin \/ PrintT("@@" \o ToJson(hist))
=============================================================================
