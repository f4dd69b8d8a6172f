----------------------------- MODULE GlpsChars -------------------------------
(* Every character word up to a length over an alphabet, set between a head and a tail behind a
   prelude (all byte sequences), with the outcome predicted for the whole text. *)
EXTENDS GlpsLex
In == JsonDeserialize(IOEnv.GLPS_IN)
RECURSIVE EatPre(_, _, _, _)
EatPre(p, s, i, ln) == LET k == TokenAt(s, i, ln) IN IF k.t = "EOF" THEN [p |-> p, ln |-> k.ln] ELSE EatPre(Eat(p, k), s, k.nx, k.ln)
Base == EatPre(PS0, In.pre, 1, 1)
VARIABLES w
Init == w = <<>>
Next == Len(w) < In.maxlen /\ \E i \in 1..Len(In.alphabet) : w' = Append(w, In.alphabet[i])
Spec == Init /\ [][Next]_w
Text == In.head \o w \o In.tail
Toks == Lex(Text, 1, Base.ln)
Report == LET ks == Toks IN PrintT("@@" \o ToJson([w |-> w, o |-> Outcome(EatAll(Base.p, ks)), k |-> [i \in 1..Len(ks) |-> [t |-> ks[i].t, ln |-> ks[i].ln]]]))
SaneLex == Again(w) /\ Tiled(w)
==============================================================================
