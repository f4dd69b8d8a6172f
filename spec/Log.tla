-------------------------------- MODULE Log --------------------------------
(* Logging: a threshold, the sink installed, and what each call delivers to which sink.

   A message that reaches the threshold goes to the sink installed at that moment, once.  A sink may act
   while it receives a message (emit another one, exchange the sink, run something that logs); messages
   emitted by a sink are received like any other, but the sinks of the tests do not act on those.
   Runs are operations of the library (building a machine, propagating) that emit P.runs[k].msgs when
   nothing is suppressed; whatever is suppressed, they emit the others, and give the same result. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
P == JsonDeserialize(IOEnv.MPARAM)
Rng(q) == {q[i] : i \in 1..Len(q)}
VARIABLES sink, thr, hist, fin
vars == <<sink, thr, hist, fin>>
Init == sink = P.sink0 /\ thr = P.thr0 /\ hist = <<>> /\ fin = FALSE

\* a state of affairs during a call: installed sink, deliveries so far
To(x, l, t) == IF l < thr \/ x.sink = 0 THEN x ELSE [x EXCEPT !.ev = Append(@, [d |-> x.sink, l |-> l, t |-> t])]
All(x, ms) == FoldLeft(LAMBDA y, m : To(y, m.l, m.t), x, ms)
\* what sink k does when it receives a message (not one of a sink)
Acts(x, k) == LET b == P.sinks[k] IN
              CASE b.do = "none" -> x
                [] b.do = "log" -> To(x, b.l, b.t)
                [] b.do = "swap" -> [x EXCEPT !.sink = b.k]
                [] b.do = "swaplog" -> To([x EXCEPT !.sink = b.k], b.l, b.t)
                [] b.do = "run" -> All(x, P.runs[b.r].msgs)
Emit(x, l, t) == IF l < thr \/ x.sink = 0 THEN x ELSE Acts(To(x, l, t), x.sink)
EmitAll(x, ms) == FoldLeft(LAMBDA y, m : Emit(y, m.l, m.t), x, ms)

Start == [sink |-> sink, ev |-> <<>>]
Finish(a, x) == sink' = x.sink /\ hist' = Append(hist, [call |-> a, ev |-> x.ev])
LogCall(l, t) == Finish([a |-> "log", l |-> l, t |-> t], Emit(Start, l, t)) /\ UNCHANGED thr
RunCall(r) == Finish([a |-> "run", r |-> r], EmitAll(Start, P.runs[r].msgs)) /\ UNCHANGED thr
SinkCall(k) == Finish([a |-> "sink", k |-> k], [sink |-> k, ev |-> <<>>]) /\ UNCHANGED thr
LevelCall(l) == Finish([a |-> "level", l |-> l], Start) /\ thr' = l
Step == (\E l \in Rng(P.levels), t \in 1..P.texts : LogCall(l, t)) \/ (\E r \in Rng(P.use) : RunCall(r))
        \/ (\E k \in Rng(P.swap) : SinkCall(k)) \/ (\E l \in Rng(P.thrs) : LevelCall(l))
Next == \/ Len(hist) < P.depth /\ fin' = FALSE /\ Step
        \/ Len(hist) = P.depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<sink, thr, hist>>
Spec == Init /\ [][Next]_vars

\* --- the property, on the model -------------------------------------------------------------------
LastEv == hist'[Len(hist')].ev
NothingBelow == [][Len(hist') > Len(hist) => \A i \in 1..Len(LastEv) : LastEv[i].l >= thr]_vars
ExactlyOnce == [][Len(hist') > Len(hist) /\ hist'[Len(hist')].call.a = "log" /\ sink # 0 /\ hist'[Len(hist')].call.l >= thr =>
                    /\ LastEv[1].d = sink /\ LastEv[1].t = hist'[Len(hist')].call.t]_vars
SilentCalls == [][Len(hist') > Len(hist) /\ hist'[Len(hist')].call.a \in {"sink", "level"} => LastEv = <<>>]_vars
Export == ~fin \/ PrintT("@@" \o ToJson(hist))
=============================================================================
