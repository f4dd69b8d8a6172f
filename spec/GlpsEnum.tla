------------------------------ MODULE GlpsEnum -------------------------------
(* Enumerates every token sequence up to a length over an alphabet (read from the environment
   together with a fixed prelude and tail), one TLC state per viable prefix, and prints the
   predicted outcome of  prelude ++ sequence ++ tail ++ EOF. *)
EXTENDS Glps
In == JsonDeserialize(IOEnv.GLPS_IN)
Alphabet == In.alphabet           \* sequence of tokens
Prelude == In.prelude
Tl == In.tail
MaxLen == In.maxlen
Base == FeedAll(PS0, Prelude)
TkLine == In.line
Tok(i) == [t |-> Alphabet[i].t, v |-> Alphabet[i].v, n |-> Alphabet[i].n, d |-> Alphabet[i].d, ln |-> TkLine]
EOFT == [t |-> "EOF", v |-> "", n |-> 0, d |-> 0, ln |-> In.eofline]

VARIABLES ps, w      \* parser state after prelude ++ w;  w: sequence of alphabet indices
Init == ps = Base /\ w = <<>>
Next == /\ Len(w) < MaxLen /\ ~ps.dead
        /\ \E i \in 1..Len(Alphabet) : w' = Append(w, i) /\ ps' = Feed(ps, Tok(i))
Spec == Init /\ [][Next]_<<ps, w>>
Final == Outcome(FeedAll(ps, Tl \o <<EOFT>>))
\* a dead parser state has nothing more to say: report each word once, at its last token
Report == PrintT("@@" \o ToJson([w |-> w, o |-> Final]))
Sane == RefsDefined(ps)
\* the parser's value of a closed expression equals the declarative meaning (C21)
Words == [i \in 1..Len(w) |-> Tok(w[i])]
DenOK == (In.den /\ ~ps.dead /\ w # <<>>) =>
           LET f == FeedAll(ps, <<[t |-> ";", v |-> "", n |-> 0, d |-> 0, ln |-> TkLine]>>)
               d == Den(Words, Base)
           IN IF f.und \/ d.k = "und" THEN TRUE
              ELSE IF f.err # 0 THEN d.k = "err" \/ \E i \in 1..Len(w) : Words[i].t \notin {"N", "K", "+", "-", "*", "/", "(", ")"}
              ELSE f.vars[Len(f.vars)].val = d
==============================================================================
