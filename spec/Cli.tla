-------------------------------- MODULE Cli --------------------------------
(* The command line tool as a process: it examines its options in turn, loads the lattice, prepares the
   output, marks the selected elements, runs the simulation element by element and reports each marked
   element when it is passed.  At most one thing is wrong with a command line (opt.bad, at the stage
   where it must be noticed).  P.elems is the lattice (names and types), P.cases the option values to
   combine; the specification says which elements are visited, which are reported, what is warned about
   and whether the exit status is a success. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.MPARAM)
N == Len(P.elems)
Range(s) == {s[i] : i \in 1..Len(s)}
NoMax == 1000000                     \* no limit requested

Stages == <<"args", "defs", "lattice", "max", "format", "machine", "select", "run", "finish">>

VARIABLES opt, pc, sel, warn, pos, out, visited, status
vars == <<opt, pc, sel, warn, pos, out, visited, status>>

\* option values: indices into P.types, P.names (lists of lists of arguments), P.fmts, P.maxes, P.defs
Opts == [all : BOOLEAN, types : 1..Len(P.types), names : 1..Len(P.names), last : BOOLEAN,
         max : 1..Len(P.maxes), fmt : 1..Len(P.fmts), verb : 1..Len(P.verbs), defs : 1..Len(P.defs), bad : 0..Len(P.bads)]

Init == /\ opt \in Opts
        /\ pc = 1 /\ sel = {} /\ warn = {} /\ pos = 1 /\ out = <<>> /\ visited = <<>> /\ status = -1

Running == status = -1
Bad == IF opt.bad = 0 THEN "none" ELSE P.bads[opt.bad]
Fail == /\ status' = 1 /\ UNCHANGED <<opt, pc, sel, warn, pos, out, visited>>
Step == pc' = pc + 1

\* every stage notices what is wrong at that stage
Notice == Running /\ Bad = Stages[pc] /\ Stages[pc] \notin {"run"} /\ Fail
Fine == Running /\ Bad # Stages[pc]

Quiet == /\ Fine /\ Stages[pc] \in {"args", "defs", "lattice", "max", "format", "machine"}
         /\ warn' = IF Stages[pc] = "format" THEN warn \cup Range(P.fmts[opt.fmt].warns) ELSE warn
         /\ Step /\ UNCHANGED <<opt, sel, pos, out, visited, status>>

TypeArgs == Range(P.types[opt.types])
NameArgs == Range(P.names[opt.names])
ByType == {i \in 1..N : P.elems[i].type \in TypeArgs}
ByName == {i \in 1..N : P.elems[i].name \in NameArgs}
Select == /\ Fine /\ Stages[pc] = "select"
          /\ sel' = (IF opt.all THEN 1..N ELSE {}) \cup ByType \cup ByName \cup (IF opt.last /\ N > 0 THEN {N} ELSE {})
          /\ warn' = warn \cup {t \in TypeArgs : \A i \in 1..N : P.elems[i].type # t}
                          \cup {n \in NameArgs : \A i \in 1..N : P.elems[i].name # n}
          /\ Step /\ UNCHANGED <<opt, pos, out, visited, status>>

Max == P.maxes[opt.max]
More == pos \in 1..N /\ (IF Max >= 0 THEN Len(visited) < Max ELSE Len(visited) < -Max)
Writes == P.fmts[opt.fmt].writes                 \* hdf5 without a file reports nothing (and warns)
Visit == /\ Fine /\ Stages[pc] = "run" /\ More
         /\ visited' = Append(visited, pos)
         /\ out' = IF pos \in sel /\ Writes THEN Append(out, pos) ELSE out
         /\ pos' = IF Max >= 0 THEN pos + 1 ELSE pos - 1
         /\ UNCHANGED <<opt, pc, sel, warn, status>>
EndRun == /\ Fine /\ Stages[pc] = "run" /\ ~More
          /\ Step /\ UNCHANGED <<opt, sel, warn, pos, out, visited, status>>
\* an element that refuses, or a quantity that does not exist, is noticed once the simulation gets there
NoticeRun == /\ Running /\ Bad = "run" /\ Stages[pc] = "run"
             /\ Fail
Finish == /\ Fine /\ Stages[pc] = "finish"
          /\ status' = 0 /\ UNCHANGED <<opt, pc, sel, warn, pos, out, visited>>

Next == Notice \/ Quiet \/ Select \/ Visit \/ EndRun \/ NoticeRun \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- the property, on the model ---------------------------------------------
Chosen(i) == opt.all \/ P.elems[i].type \in TypeArgs \/ P.elems[i].name \in NameArgs \/ (opt.last /\ i = N)
Limit == IF Max = 0 THEN 0 ELSE IF Max < 0 THEN 1 ELSE IF Max < N THEN Max ELSE N
ReportsExactly == status = 0 /\ Writes =>
    out = SelectSeq([i \in 1..(IF N = 0 THEN 0 ELSE Limit) |-> i], Chosen)
InOrder == \A i, j \in 1..Len(out) : i < j => out[i] < out[j]
NeverSilent == (opt.bad # 0 => status # 0) /\ (opt.bad = 0 => status # 1)
WarnsUnmatched == status = 0 => \A a \in TypeArgs \cup NameArgs : (\A i \in 1..N : P.elems[i].type # a /\ P.elems[i].name # a) => a \in warn
Ends == <>(status # -1)

Export == Running \/ PrintT("@@" \o ToJson([opt |-> opt, status |-> status, out |-> out, visited |-> visited, warn |-> warn, stage |-> Bad]))
=============================================================================
