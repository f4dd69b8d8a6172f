-------------------------------- MODULE Beam --------------------------------
(* The beam a configuration denotes (C13, C05): what a MomentMatrix state, or a source element,
   built from a configuration carries - or that the configuration is refused.

   A configuration is abstracted to which of its entries are there and how long they are:
     ics   entries of IonChargeStates   (-1: absent)
     nc    entries of NCharge           (-1: absent)
     cs    cstate                       (-1: absent)
     bad   one damaged entry: "novec" "shortvec" "longvec" "nomat" "shortmat" of charge state bk, or "none"
     z, q, f   IonZ, IonQ, SampleFreq given?      ren: the names of the moments chosen by the user
   The numbers are those of P: vec[k], mat[k] for charge state k, pvec, pmat for a beam without charge states. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.MPARAM)
VARIABLES c, done
Bads == {"none", "novec", "shortvec", "longvec", "nomat", "shortmat"}
Confs == {x \in [ics : -1..3, nc : -1..3, cs : -1..3, bad : Bads, bk : 0..2, z : BOOLEAN, q : BOOLEAN, f : BOOLEAN, ren : BOOLEAN] :
            (x.bad = "none" => x.bk = 0)}
\* charge states the configuration selects (counted from 0)
Selected(x) == IF x.cs >= 0 THEN <<x.cs>> ELSE [k \in 1..x.ics |-> k-1]
Refused(x) ==
  \/ x.ics = -1 /\ x.cs >= 0                       \* a number of a charge state without charge states
  \/ x.ics = 0
  \/ x.ics > 0 /\ x.cs >= x.ics
  \/ x.ics > 0 /\ x.nc # x.ics                     \* one weight per charge state
  \/ x.ics > 0 /\ x.bad # "none" /\ \E k \in 1..Len(Selected(x)) : Selected(x)[k] = x.bk     \* needs its moments
Weight(k) == P.nch[k+1]
Charge(k) == P.ics[k+1]
RefZ(x) == IF x.z THEN P.z ELSE IF x.ics > 0 THEN Charge(0) ELSE 0
RefQ(x) == IF x.q THEN P.q ELSE IF x.ics > 0 THEN Weight(0) ELSE 1
Zero7 == [i \in 1..7 |-> 0]
Id7 == [i \in 1..7 |-> [j \in 1..7 |-> IF i = j THEN 1 ELSE 0]]
States(x) ==
  IF x.ics > 0
  THEN [n \in 1..Len(Selected(x)) |-> LET k == Selected(x)[n] IN
          [z |-> Charge(k), q |-> Weight(k), m0 |-> P.vec[k+1], m1 |-> P.mat[k+1],
           phis |-> P.vec[k+1][5], ek |-> P.ek + 1000000*P.vec[k+1][6]]]
  ELSE << [z |-> RefZ(x), q |-> RefQ(x),
           m0 |-> IF x.bad \in {"novec", "shortvec", "longvec"} THEN Zero7 ELSE P.pvec,
           m1 |-> IF x.bad \in {"nomat", "shortmat"} THEN Id7 ELSE P.pmat,
           phis |-> 0, ek |-> P.ek] >>
Denotes(x) == IF Refused(x) THEN [ok |-> FALSE]
              ELSE [ok |-> TRUE, st |-> States(x), rz |-> RefZ(x), rq |-> RefQ(x), freq |-> x.f]

Init == c \in Confs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ c' = c
        /\ PrintT("@@" \o ToJson(<<c, Denotes(c)>>))
Spec == Init /\ [][Next]_<<c, done>>
\* what is accepted has at least one charge state, one weight for each, and the selected identities
WellFormed == ~Refused(c) => /\ Len(States(c)) >= 1
                             /\ (c.ics > 0 /\ c.cs < 0) => Len(States(c)) = c.ics
                             /\ c.cs >= 0 => Len(States(c)) = 1 /\ States(c)[1].z = Charge(c.cs)
=============================================================================
