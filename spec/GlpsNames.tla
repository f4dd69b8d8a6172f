----------------------------- MODULE GlpsNames -------------------------------
(* Every name of up to maxlen components over an alphabet, absolute and relative, seen from every
   directory, with the value each of the file functions gives it (C22). *)
EXTENDS Glps
In == JsonDeserialize(IOEnv.GLPS_IN)      \* comps, maxlen, root (the canonical name of the root)
Dirs == {n \in 1..Len(FS.nodes) : FS.nodes[n].k = "d"}
VARIABLES w, abs, cwd
Init == w = <<>> /\ abs \in BOOLEAN /\ cwd \in Dirs
Next == Len(w) < In.maxlen /\ \E i \in 1..Len(In.comps) : w' = Append(w, In.comps[i]) /\ UNCHANGED <<abs, cwd>>
Spec == Init /\ [][Next]_<<w, abs, cwd>>
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o "/" \o Join(Tail(cs))
Text == IF abs THEN In.root \o Slashed(w) ELSE Join(w)
Nm == [abs |-> abs, cs |-> w]
F == FileV(Nm, cwd)
H == H5V(Nm, cwd, Len(w))
Node == Named(Nm, cwd)
\* a relative name that starts with an empty component would be an absolute one
Sensible == w # <<>> /\ (abs \/ w[1] # "")
Report == Sensible => PrintT("@@" \o ToJson([s |-> Text, cwd |-> cwd, f |-> [k |-> F.k, s |-> F.s], h |-> [k |-> H.k, s |-> H.s],
                                             lat |-> IF Node > 0 /\ FS.nodes[Node].k = "f" /\ ~OpenEnd(w) THEN Node ELSE IF Node = Outside \/ OpenEnd(w) THEN -1 ELSE 0]))
\* ---- the meaning of names is what one expects of it
\* a canonical name stands for the same thing from everywhere
Canon == (Sensible /\ Node > 0) => Named([abs |-> TRUE, cs |-> FS.nodes[Node].cs], cwd) = Node
\* what exists is its own longest existing part
Agree == (Sensible /\ F.k = "s") => H = F
\* "." and a detour through a directory change nothing
Idle == (Sensible /\ F.k = "s") => Named([abs |-> abs, cs |-> <<".">> \o w], cwd) = Node
==============================================================================
