------------------------------ MODULE FileCache ------------------------------
(* Data files on disk, the memory of what was read from them, and the users of their content.

   A file has a content (or is absent, or holds something unreadable) and a modification time in
   whole seconds, chosen by whoever writes it: later or earlier than before, or brought back.  The
   one thing assumed of writers is that the time differs from the one seen at the last successful
   read whenever the content does (SeenOK).

   The memory keeps, per path, the last content read with the time the file had just before it was
   read.  A request is served from memory exactly when the file is there with that same time.  The
   property is what this buys: a request is answered with the content now on disk, or fails when
   there is none, whatever happened before (Fresh); a failure is not remembered; what was handed
   out earlier does not change (Frozen). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.MPARAM)
Files == 1..P.files
Good == 1..P.contents
Absent == 0
Bad == P.contents + 1          \* unreadable, in P.bads different ways
Odd == P.contents + 2          \* read (and remembered) without complaint, but of no use to the requester
Times == 1..P.times
Users == 1..P.users

VARIABLES disk, mem, seen, held, hist
vars == <<disk, mem, seen, held, hist>>
None == [on |-> FALSE]

Init == /\ disk = [f \in Files |-> [c |-> Absent, t |-> 1]]
        /\ mem = [f \in Files |-> None]
        /\ seen = [f \in Files |-> None]
        /\ held = [u \in Users |-> None]
        /\ hist = <<>>

Do(a) == Len(hist) < P.depth /\ hist' = Append(hist, a)
On(x) == \E k \in 1..Len(P.acts) : P.acts[k] = x

SeenOK(f, c, t) == ~(seen[f].on /\ seen[f].t = t /\ seen[f].c # c)

Put(f, c, t) == /\ On("put") /\ SeenOK(f, c, t) /\ (disk[f].c # c \/ disk[f].t # t)
                /\ disk' = [disk EXCEPT ![f] = [c |-> c, t |-> t]]
                /\ UNCHANGED <<mem, seen, held>>
                /\ Do([op |-> "put", f |-> f, c |-> c, t |-> t])
Spoil(f, k, t) == /\ On("spoil") /\ SeenOK(f, Bad, t) /\ disk[f].c # Bad
                  /\ disk' = [disk EXCEPT ![f] = [c |-> Bad, t |-> t]]
                  /\ UNCHANGED <<mem, seen, held>>
                  /\ Do([op |-> "spoil", f |-> f, k |-> k, t |-> t])
Odden(f, k, t) == /\ On("odd") /\ SeenOK(f, Odd, t) /\ disk[f].c # Odd
                  /\ disk' = [disk EXCEPT ![f] = [c |-> Odd, t |-> t]]
                  /\ UNCHANGED <<mem, seen, held>>
                  /\ Do([op |-> "odd", f |-> f, k |-> k, t |-> t])
Remove(f) == /\ On("remove") /\ disk[f].c # Absent
             /\ disk' = [disk EXCEPT ![f].c = Absent]
             /\ UNCHANGED <<mem, seen, held>>
             /\ Do([op |-> "remove", f |-> f])
Clear == /\ On("clear") /\ \E f \in Files : mem[f].on
         /\ mem' = [f \in Files |-> None]
         /\ seen' = [f \in Files |-> None]     \* nothing is remembered: no assumption on later writers
         /\ UNCHANGED <<disk, held>>
         /\ Do([op |-> "clear"])

\* what the memory makes of a request, and what it keeps
Hit(f) == disk[f].c # Absent /\ mem[f].on /\ mem[f].t = disk[f].t
Read(f) == IF Hit(f) THEN mem[f].c ELSE IF disk[f].c \in Good \cup {Odd} THEN disk[f].c ELSE Absent
Answer(f) == IF Read(f) \in Good THEN Read(f) ELSE Absent
Fetch(u, f, how) ==
    LET r == Answer(f)  x == Read(f) IN
    /\ On(how)
    /\ how = "refetch" => held[u].on /\ held[u].f # f     \* a held user turned to another file
    /\ how = "reload" => held[u].on /\ held[u].f = f       \* a held user told to read its file again
    /\ mem' = IF x # Absent /\ ~Hit(f) THEN [mem EXCEPT ![f] = [on |-> TRUE, c |-> x, t |-> disk[f].t]] ELSE mem
    /\ seen' = IF x # Absent THEN [seen EXCEPT ![f] = [on |-> TRUE, c |-> x, t |-> disk[f].t]] ELSE seen
    /\ held' = IF r # Absent THEN [held EXCEPT ![u] = [on |-> TRUE, c |-> r, f |-> f]] ELSE held
    /\ UNCHANGED disk
    /\ Do([op |-> how, u |-> u, f |-> f, ok |-> r # Absent, c |-> r, hit |-> Hit(f),
           held |-> [v \in Users |-> IF held'[v].on THEN held'[v].c ELSE 0]])

Next == \/ \E f \in Files, c \in Good, t \in Times : Put(f, c, t)
        \/ \E f \in Files, k \in 1..P.bads, t \in Times : Spoil(f, k, t)
        \/ \E f \in Files, k \in 1..P.bads, t \in Times : Odden(f, k, t)
        \/ \E f \in Files : Remove(f)
        \/ Clear
        \/ \E u \in Users, f \in Files, how \in {"fetch", "refetch", "reload"} : Fetch(u, f, how)
Spec == Init /\ [][Next]_vars

\* --- the properties, on the model ------------------------------------------
Fresh == \A f \in Files : Answer(f) = IF disk[f].c \in Good THEN disk[f].c ELSE Absent
MemSeen == \A f \in Files : mem[f].on => seen[f].on /\ mem[f].c = seen[f].c /\ mem[f].t = seen[f].t
Frozen == [][\A u \in Users : held'[u] # held[u] => hist' # hist /\ hist'[Len(hist')].op \in {"fetch", "refetch", "reload"}
                                                    /\ hist'[Len(hist')].u = u /\ hist'[Len(hist')].ok]_vars
NoBadMem == \A f \in Files : mem[f].on => mem[f].c \in Good \cup {Odd}

\* --- export of behaviours ---------------------------------------------------
View == <<disk, mem, seen, held>>
Interesting == Len(hist) = P.depth /\ hist[Len(hist)].op \in {"fetch", "refetch", "reload"}
Export == ~Interesting \/ PrintT("@@" \o ToJson(hist))
=============================================================================
