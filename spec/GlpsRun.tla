------------------------------ MODULE GlpsRun --------------------------------
(* Runs the parser specification on given token sequences (one TLC state per token) and prints the
   outcome it assigns to each; the harness compares with the real parser on the rendered text.
   lat = FALSE: the text is read for its variables only. *)
EXTENDS Glps
Progs == ndJsonDeserialize(IOEnv.GLPS_IN)
VARIABLES i, j, ps
Start(n) == IF n <= Len(Progs) /\ "cwd" \in DOMAIN Progs[n] THEN [PS0 EXCEPT !.cwd = Progs[n].cwd] ELSE PS0
Init == i = 1 /\ j = 1 /\ ps = Start(1)
Cur == Progs[i].toks
Next == /\ i <= Len(Progs)
        /\ IF j <= Len(Cur)
           THEN i' = i /\ j' = j + 1 /\ ps' = Feed(ps, Cur[j])
           ELSE /\ PrintT("@@" \o ToJson([id |-> Progs[i].id, o |-> IF Progs[i].lat THEN Outcome(ps) ELSE VarsOnly(ps)]))
                /\ i' = i + 1 /\ j' = 1 /\ ps' = Start(i + 1)
Spec == Init /\ [][Next]_<<i, j, ps>>
View == <<i, j>>
Sane == RefsDefined(ps)
==============================================================================
