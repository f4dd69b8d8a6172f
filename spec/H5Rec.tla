------------------------------- MODULE H5Rec -------------------------------
(* Recording of beam states into groups of HDF5 files.

   A file is absent, or has a root group (0) and named groups; group 3 lives inside group 1.  A group
   holds the rows recorded into it (each the value of a state when it was recorded, with the number of
   charge states it then had) and string attributes.  Opening a writer on a named group starts that group
   afresh; on the root group it leaves what is there, and recording into a root group that already has
   data is refused.  A file is open in at most one writer at a time.

   Values of states are numbered: every change of a state gives it a value never seen before. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.MPARAM)
Files == 1..P.files
Groups == 0..3
Writers == 1..P.writers
States == 1..P.states
Kind(s) == P.kind[s]
Shapes(s) == 1..P.shapes[s]
Parent(g) == IF g = 3 THEN 1 ELSE 0
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

VARIABLES disk, w, beam, fresh, hist
vars == <<disk, w, beam, fresh, hist>>

NoG == [on |-> FALSE]
Empty == [on |-> TRUE, rows |-> <<>>, kind |-> 0, attr |-> <<>>]
Off == [st |-> "off", f |-> 0, g |-> 0, started |-> FALSE]

Init == /\ disk = [f \in Files |-> [g \in Groups |-> NoG]]
        /\ w = [x \in Writers |-> Off]
        /\ beam = [s \in States |-> [v |-> s, n |-> 1]]
        /\ fresh = P.states + 1
        /\ hist = <<>>

On(a) == \E k \in 1..Len(P.acts) : P.acts[k] = a
Room == Len(hist) < P.depth
Do(a) == Room /\ hist' = Append(hist, a @@ [beam |-> beam', disk |-> disk'])

Free(x, f) == \A y \in Writers \ {x} : w[y].f # f

\* opening: first releases whatever the writer had
Open(x, f, g) ==
    LET old == disk[f]
        root == [old EXCEPT ![0] = IF old[0].on THEN old[0] ELSE Empty]      \* the file now exists
        cleared == [k \in Groups |-> IF g # 0 /\ (k = g \/ Parent(k) = g) THEN NoG ELSE root[k]]
        ok == Parent(g) = 0 \/ old[Parent(g)].on
    IN /\ On("open") /\ Free(x, f)
       /\ disk' = [disk EXCEPT ![f] = IF g = 0 \/ ~ok THEN root ELSE [cleared EXCEPT ![g] = Empty]]
       /\ w' = [w EXCEPT ![x] = [st |-> IF ok THEN "on" ELSE "half", f |-> f, g |-> g, started |-> FALSE]]
       /\ UNCHANGED <<beam, fresh>>
       /\ Do([op |-> "open", w |-> x, f |-> f, g |-> g, ok |-> ok])
\* something that is not an HDF5 file (k: which), left as it was
OpenBad(x, k) == /\ On("openbad")
                 /\ w' = [w EXCEPT ![x] = Off]
                 /\ UNCHANGED <<disk, beam, fresh>>
                 /\ Do([op |-> "openbad", w |-> x, k |-> k, ok |-> FALSE])
Close(x) == /\ On("close") /\ (w[x].st # "off" \/ \A i \in 1..Len(hist) : hist[i].op # "close")
            /\ w' = [w EXCEPT ![x] = Off]
            /\ UNCHANGED <<disk, beam, fresh>>
            /\ Do([op |-> "close", w |-> x, ok |-> TRUE])
Drop(x) == /\ On("drop") /\ w[x].st # "off"
           /\ w' = [w EXCEPT ![x] = Off]
           /\ UNCHANGED <<disk, beam, fresh>>
           /\ Do([op |-> "drop", w |-> x, ok |-> TRUE])

Record(x, s) ==
    LET f == w[x].f  g == w[x].g
        ok == w[x].st = "on" /\ (w[x].started \/ disk[f][g].rows = <<>>)
    IN /\ On("append")
       /\ ok /\ w[x].started => disk[f][g].kind = Kind(s)         \* one kind of state per group
       /\ w[x].st = "on" /\ disk[f][g].rows # <<>> => disk[f][g].kind = Kind(s)
       /\ disk' = IF ok THEN [disk EXCEPT ![f][g].rows = Append(@, beam[s]), ![f][g].kind = Kind(s)] ELSE disk
       /\ w' = IF ok THEN [w EXCEPT ![x].started = TRUE] ELSE w
       /\ UNCHANGED <<beam, fresh>>
       /\ Do([op |-> "append", w |-> x, s |-> s, ok |-> ok])
Attr(x, a, v) ==
    LET ok == w[x].st = "on" IN
    /\ On("attr")
    /\ disk' = IF ok THEN [disk EXCEPT ![w[x].f][w[x].g].attr = (a :> v) @@ @] ELSE disk
    /\ UNCHANGED <<w, beam, fresh>>
    /\ Do([op |-> "attr", w |-> x, a |-> a, v |-> v, ok |-> ok])
Evolve(s, n) == /\ On("evolve") /\ n \in Shapes(s)
                /\ beam' = [beam EXCEPT ![s] = [v |-> fresh, n |-> n]]
                /\ fresh' = fresh + 1
                /\ UNCHANGED <<disk, w>>
                /\ Do([op |-> "evolve", s |-> s, n |-> n, ok |-> TRUE])

Next == \/ \E x \in Writers, f \in Files, g \in 0..P.groups : Open(x, f, g)
        \/ \E x \in Writers, k \in 1..2 : OpenBad(x, k)
        \/ \E x \in Writers : Close(x) \/ Drop(x)
        \/ \E x \in Writers, s \in States : Record(x, s)
        \/ \E x \in Writers, a \in 1..2, v \in 1..P.attrs : Attr(x, a, v)
        \/ \E s \in States, n \in 1..5 : Evolve(s, n)
Spec == Init /\ [][Next]_vars

\* --- the property, on the model ----------------------------------------------
\* a row, once recorded, stays until its group is started afresh; only recording adds rows, at the end, one at a time
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Last == hist'[Len(hist')]
Stable == [][\A f \in Files, g \in Groups :
               LET a == disk[f][g]  b == disk'[f][g] IN
               \/ a = b
               \/ Last.op = "open" /\ Last.f = f /\ (Last.g = g \/ (Parent(g) # 0 /\ Parent(g) = Last.g) \/ (g = 0 /\ ~a.on))
               \/ Last.op = "append" /\ Last.ok /\ b.attr = a.attr /\ b.rows = Append(a.rows, beam[Last.s])
                  /\ w[Last.w].f = f /\ w[Last.w].g = g
               \/ Last.op = "attr" /\ Last.ok /\ b.rows = a.rows /\ w[Last.w].f = f /\ w[Last.w].g = g]_vars
OneWriter == \A x, y \in Writers : x # y /\ w[x].f # 0 => w[x].f # w[y].f
Alive == \A x \in Writers : w[x].st = "on" => disk[w[x].f][w[x].g].on
OneKind == \A f \in Files, g \in Groups, i \in 1..P.states : disk[f][g].on /\ disk[f][g].rows # <<>> => disk[f][g].kind # 0

\* every value recorded exists, and is recorded with the number of charge states it had
Export == Len(hist) < P.depth \/ ~(\E f \in Files, g \in Groups : disk[f][g].on /\ disk[f][g].rows # <<>>) \/ PrintT("@@" \o ToJson(hist))
=============================================================================
