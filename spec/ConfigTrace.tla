---------------------------- MODULE ConfigTrace ------------------------------
(* Is a recorded run of the real Config class a behaviour of ConfigAbs?  Each line of the trace is
   one call with its arguments, its result and the full observation of every handle afterwards. *)
EXTENDS ConfigAbs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == AInit /\ l = 1
E == Trace[l]
V(e) == [t |-> e.t, x |-> e.x, n |-> <<>>]
Logged == /\ \A s \in Slot : Obs(cfg'[s]) = E.obs[s]
          /\ E.a = "exch" => E.ret = Ret(cfg[E.s], E.k)
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ CASE E.a = "reset"   -> cfg' = [s \in Slot |-> EmptyCfg]
             [] E.a = "set"     -> ASet(E.s, E.k, V(E))
             [] E.a = "exch"    -> ASet(E.s, E.k, V(E))
             [] E.a = "copy"    -> ACopy(E.s, E.d)
             [] E.a = "copyctor"-> ACopy(E.s, E.d)
             [] E.a = "swap"    -> ASwap(E.s, E.d)
             [] E.a = "new"     -> ANew(E.s, E.d)
             [] E.a = "push"    -> APush(E.s)
             [] E.a = "flatten" -> AFlatten(E.s)
             [] E.a = "fresh"   -> AFresh(E.s)
             [] E.a = "nest"    -> ANest(E.s, E.k, E.d)
             [] E.a = "unnest"  -> AUnnest(E.s, E.k, E.d)
        /\ Logged
TSpec == TInit /\ [][Step]_<<cfg, l>>
TView == l
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT("@@" \o ToJson([rejected |-> n + 1])) /\ FALSE
==============================================================================
