------------------------------- MODULE Optics --------------------------------
(* Lattices of elements that only guide the beam, what such a lattice means, and the laws by which one
   lattice may be replaced by another one (C23).

   A piece of a lattice is an element in exact units:
     k   D drift, Q quadrupole, S solenoid, E electrostatic quadrupole, X sextupole, B sector bend,
         H electrostatic dipole, K orbit trim, R turn of the frame (a trim that only rotates),
         M marker, P beam position monitor, and QP SP EP: Q, S, E given by a field profile c
     n   length        s  strength (B, H: angle per length; K: kick in x; R: angle)
     t   K: kick in y; H: 1 if it bends vertically; B: gradient
     e, f   entrance and exit edges of B; e: fringe of H (both ends); K: e = turn of the frame before the kick
     r   roll, in units of 15 degrees       x, y   offset of the element
     v   which of several descriptions of the same element      m   X: number of steps; profiles: samples per length
     C   cavity: v what kind, s field, t phase (units of 15 degrees), m 1 if that is the phase of the field and 0 if that of
         the reference, e multipoles up to which order, f growth of emittance, c how its data file is written
         (<<4>>, <<5>>: with the fields above order one, above order zero left out)

   The meaning of a lattice is the sequence of its slices of unit length, each with the angle and offset
   at which the beam meets it, without those that do nothing, and the total turn of the frame.
   The laws are the actions.  Invariant: no law changes the meaning.  The real code must give the same beam for
   every lattice of the same meaning. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

In == JsonDeserialize(IOEnv.OPT_IN)     \* base: words to start from, laws: names, depth, maxlen, ins: what may be inserted,
                                        \* kinds: what a drift may be replaced by, sim: simulating, only: print the last words only, mir: mirror one word in so many
VARIABLES w0, w, d, ref
vars == <<w0, w, d, ref>>

P0 == [k |-> "D", n |-> 0, s |-> 0, t |-> 0, e |-> 0, f |-> 0, r |-> 0, x |-> 0, y |-> 0, v |-> 0, m |-> 1, c |-> <<>>]
Mod(a, b) == a % b
Turn(a) == [P0 EXCEPT !.k = "R", !.s = a]

(* ------------------------------------------------------------------ meaning *)
RECURSIVE Quarter(_, _)
Quarter(u, q) == IF q = 0 THEN u ELSE Quarter(<<-u[2], u[1]>>, q - 1)
\* a vector given in a frame turned by a (units of 15 degrees), as seen before the turn
Seen(u, a) == IF u = <<0, 0>> THEN <<0, 0, 0>>
              ELSE LET b == Mod(a, 24) z == Quarter(u, b \div 6) IN <<b % 6, z[1], z[2]>>
Rep(a, n) == [i \in 1..n |-> a]
Free == [k |-> "D"]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* symmetric elements: an N-pole field is the same, with the other sign, after half of its period
Sym(k, s, a, per, o) == LET b == Mod(a, 2 * per) IN IF s = 0 THEN Free
                        ELSE [k |-> k, s |-> IF b >= per THEN -s ELSE s, a |-> b % per, o |-> o]
Slice(k, s, a, o) == CASE k = "S" -> IF s = 0 THEN Free ELSE [k |-> "S", s |-> s, o |-> o]
                       [] k \in {"Q", "E"} -> Sym(k, s, a, 6, o)
\* what the cavity has of multipoles: those that its data holds and that are asked for
\* (in the built-in kinds an idle magnetic quadrupole is not nothing: a recorded finding)
Ord(p) == LET h == IF p.c = <<5>> THEN 0 ELSE IF p.c = <<4>> THEN 1 ELSE 2 IN
          IF p.e < h THEN p.e ELSE IF p.v < 4 /\ p.e = 2 THEN 4 - h ELSE h
Atoms(p, A) ==
  LET a == Mod(A + p.r, 24)  o == Seen(<<p.x, p.y>>, A) IN
  CASE p.k = "D" -> Rep(Free, p.n)
    [] p.k \in {"Q", "S", "E"} -> Rep(Slice(p.k, p.s, a, o), p.n)
    [] p.k = "QP" -> [i \in 1..Len(p.c) |-> Slice("Q", p.c[i], a, o)]
    [] p.k = "SP" -> [i \in 1..Len(p.c) |-> Slice("S", p.c[i], a, o)]
    [] p.k = "EP" -> [i \in 1..Len(p.c) |-> Slice("E", p.c[i], a, o)]
    [] p.k = "X" -> IF p.s = 0 THEN Rep(Free, p.n)
                    ELSE IF p.n = 0 THEN <<>>
                    ELSE Rep([Sym("X", p.s, a, 4, o) EXCEPT !.k = IF p.v = 0 THEN "X" ELSE "Y"] @@ [n |-> p.n \div p.m], p.m)
    [] p.k = "B" -> IF p.n = 0 THEN <<>>
                    ELSE IF p.s = 0 /\ p.t = 0 THEN Rep(Free, p.n)
                    ELSE LET z == IF a >= 12 THEN -1 ELSE 1      \* upside down: it bends to the other side
                             g(e) == IF e = 0 \/ p.s = 0 THEN <<>> ELSE <<[k |-> "G", s |-> z * p.s, e |-> z * e, a |-> a % 12, o |-> o]>>
                         IN g(p.e) \o Rep([k |-> "B", s |-> z * p.s, t |-> p.t, a |-> a % 12, o |-> o], p.n) \o g(p.f)
    [] p.k = "H" -> IF p.n = 0 THEN <<>>
                    ELSE LET b == Mod(a + 6 * p.t, 24)
                             g == IF p.e = 0 THEN <<>> ELSE <<[k |-> "F", e |-> p.e, a |-> b % 12, o |-> o]>>
                         IN g \o Rep([k |-> "H", s |-> IF b >= 12 THEN -p.s ELSE p.s, v |-> p.m, a |-> b % 12, o |-> o], p.n) \o g
    [] p.k = "K" -> LET z == Seen(<<p.s, p.t>>, a + p.e) IN IF z = <<0, 0, 0>> THEN <<>> ELSE <<[k |-> "K", z |-> z]>>
    [] p.k = "C" -> IF p.s = 0 THEN <<[k |-> "C", v |-> p.v, n |-> p.n, s |-> 0]>>
                    ELSE LET flip == p.m = 1 /\ p.s < 0 IN      \* the field half a period later is the opposite one
                         <<[k |-> "C", v |-> p.v, n |-> p.n, s |-> IF flip THEN -p.s ELSE p.s, t |-> Mod(IF flip THEN p.t + 12 ELSE p.t, 24), m |-> p.m,
                            e |-> Ord(p), f |-> p.f, a |-> IF Ord(p) = 0 /\ p.f = 0 THEN 0 ELSE IF Ord(p) = 0 THEN a % 6 ELSE a, o |-> o]>>
    [] OTHER -> <<>>
\* kicks at one place add up
RECURSIVE Join(_, _)
Join(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET b == Head(todo) IN
       IF b.k = "K" /\ done # <<>> /\ done[Len(done)].k = "K" /\ done[Len(done)].z[1] = b.z[1]
       THEN LET u == done[Len(done)].z  z == <<b.z[1], u[2] + b.z[2], u[3] + b.z[3]>>
                front == SubSeq(done, 1, Len(done) - 1)
            IN Join(IF z[2] = 0 /\ z[3] = 0 THEN front ELSE Append(front, [k |-> "K", z |-> z]), Tail(todo))
       ELSE Join(Append(done, b), Tail(todo))
RECURSIVE Walk(_, _, _)
Walk(u, A, acc) == IF u = <<>> THEN [s |-> Join(<<>>, acc), a |-> Mod(A, 24)]
                   ELSE LET p == Head(u) IN
                        Walk(Tail(u), A + (IF p.k = "R" THEN p.s ELSE IF p.k = "K" THEN p.e ELSE 0), acc \o Atoms(p, A))
Meaning(u) == Walk(u, 0, <<>>)
RECURSIVE Length(_)
Length(u) == IF u = <<>> THEN 0 ELSE Head(u).n + Length(Tail(u))

(* ------------------------------------------------------------------ laws *)
Put(i, ps) == w' = SubSeq(w, 1, i - 1) \o ps \o SubSeq(w, i + 1, Len(w))
\* positions to look at: all, or when simulating a random one
At(lo, hi) == IF lo > hi THEN {} ELSE IF In.sim = 1 THEN {RandomElement(lo..hi)} ELSE lo..hi
On(l) == l \in {In.laws[i] : i \in 1..Len(In.laws)}
Kinds == {In.kinds[i] : i \in 1..Len(In.kinds)}
Prof(k) == k \in {"QP", "SP", "EP"}
Plain(k) == IF k = "QP" THEN "Q" ELSE IF k = "SP" THEN "S" ELSE "E"
Bad == IF ref = "any" THEN "ref" ELSE ref
Same == UNCHANGED ref

Cut == On("cut") /\ \E i \in At(1, Len(w)) : LET p == w[i] IN
  \/ /\ p.k \in {"D", "Q", "S", "E"} /\ Same
     /\ \E a \in 1..(p.n - 1) : Put(i, <<[p EXCEPT !.n = a], [p EXCEPT !.n = p.n - a]>>)
  \/ /\ p.k = "B" /\ Same
     /\ \E a \in 1..(p.n - 1) : Put(i, <<[p EXCEPT !.n = a, !.f = 0], [p EXCEPT !.n = p.n - a, !.e = 0]>>)
  \/ /\ p.k = "H" /\ p.e = 0 /\ ref' = Bad      \* only for the particle the dipole is made for
     /\ \E a \in 1..(p.n - 1) : Put(i, <<[p EXCEPT !.n = a], [p EXCEPT !.n = p.n - a]>>)
  \/ /\ p.k = "X" /\ p.n > 0 /\ Same
     /\ \E a \in 1..(p.m - 1) : LET h == p.n \div p.m IN Put(i, <<[p EXCEPT !.n = a * h, !.m = a], [p EXCEPT !.n = p.n - a * h, !.m = p.m - a]>>)
  \/ /\ Prof(p.k) /\ Same
     /\ \E a \in 1..(p.n - 1) : Put(i, <<[p EXCEPT !.n = a, !.c = SubSeq(p.c, 1, a)], [p EXCEPT !.n = p.n - a, !.c = SubSeq(p.c, a + 1, p.n)]>>)
Merge == On("merge") /\ Same /\ \E i \in At(1, Len(w) - 1) : LET p == w[i] q == w[i + 1]
      two(z) == w' = SubSeq(w, 1, i - 1) \o <<z>> \o SubSeq(w, i + 2, Len(w)) IN
  \/ /\ p.k \in {"D", "Q", "S", "E"} /\ q = [p EXCEPT !.n = q.n] /\ two([p EXCEPT !.n = p.n + q.n])
  \/ /\ p.k = "B" /\ p.n > 0 /\ q.n > 0 /\ p.f = 0 /\ q = [p EXCEPT !.n = q.n, !.e = 0, !.f = q.f] /\ two([p EXCEPT !.n = p.n + q.n, !.f = q.f])
  \/ /\ p.k = "X" /\ p.n > 0 /\ q.n > 0 /\ q = [p EXCEPT !.n = q.n, !.m = q.m] /\ p.n \div p.m = q.n \div q.m
     /\ two([p EXCEPT !.n = p.n + q.n, !.m = p.m + q.m])
  \/ /\ Prof(p.k) /\ q = [p EXCEPT !.n = q.n, !.c = q.c] /\ two([p EXCEPT !.n = p.n + q.n, !.c = p.c \o q.c])
  \/ /\ p.k = "K" /\ q.k = "K" /\ q.e = 0 /\ p.r = q.r /\ p.v = q.v /\ p.e = 0 /\ two([p EXCEPT !.s = p.s + q.s, !.t = p.t + q.t])
  \/ /\ p.k = "R" /\ q.k = "R" /\ two(Turn(p.s + q.s))
Profile == On("profile") /\ Same /\ \E i \in At(1, Len(w)) : LET p == w[i] IN
  \/ /\ p.k \in {"Q", "S", "E"} /\ p.n > 0 /\ \E h \in 1..2 : Put(i, <<[p EXCEPT !.k = p.k \o "P", !.s = 0, !.v = 0, !.m = h, !.c = Rep(p.s, p.n)]>>)
  \/ /\ Prof(p.k) /\ \A j \in 1..p.n : p.c[j] = p.c[1]
     /\ Put(i, <<[p EXCEPT !.k = Plain(p.k), !.s = p.c[1], !.v = 0, !.m = 1, !.c = <<>>]>>)
  \/ /\ Prof(p.k) /\ \E h \in 1..3 : h # p.m /\ Put(i, <<[p EXCEPT !.m = h]>>)
Null == On("null") /\ \E i \in At(1, Len(w)) : LET p == w[i]  dr == [P0 EXCEPT !.n = p.n] IN
  \/ /\ \/ p.k \in {"Q", "S", "E", "X"} /\ p.s = 0
        \/ Prof(p.k) /\ \A j \in 1..Len(p.c) : p.c[j] = 0
     /\ Same /\ Put(i, <<dr>>)
  \/ /\ p.k = "B" /\ p.s = 0 /\ p.t = 0 /\ ref' = Bad /\ Put(i, <<dr>>)
  \/ /\ p.k = "D" /\ p.n > 0 /\ Same /\ \E k \in {"Q", "S", "E", "X"} \cap Kinds : Put(i, <<[p EXCEPT !.k = k]>>)
  \/ /\ p.k = "D" /\ p.n > 0 /\ "B" \in Kinds /\ ref' = Bad /\ Put(i, <<[p EXCEPT !.k = "B"]>>)
Insert == On("insert") /\ Same /\ Len(w) < In.maxlen /\ \E i \in At(0, Len(w)), j \in At(1, Len(In.ins)) :
  w' = SubSeq(w, 1, i) \o In.ins[j] \o SubSeq(w, i + 1, Len(w))
Remove == On("remove") /\ Same /\ \E i \in At(1, Len(w)) : LET p == w[i] IN
  /\ \/ p.k \in {"M", "P"}
     \/ p.k = "K" /\ p.s = 0 /\ p.t = 0 /\ Mod(p.e, 24) = 0
     \/ p.k = "R" /\ Mod(p.s, 24) = 0
     \/ p.k \notin {"M", "P", "K", "R"} /\ p.n = 0
  /\ Put(i, <<>>)
Describe == On("describe") /\ Same /\ \E i \in At(1, Len(w)) : LET p == w[i] IN
  \/ p.k \in {"E", "B", "H", "K"} /\ \E h \in 0..1 : h # p.v /\ Put(i, <<[p EXCEPT !.v = h]>>)
  \/ Prof(p.k) /\ \E h \in 0..2 : h # p.v /\ Put(i, <<[p EXCEPT !.v = h]>>)
Roll == On("roll") /\ Same /\ \E i \in At(1, Len(w)) : LET p == w[i] IN
  \/ /\ p.k \notin {"R", "M", "P", "D"} /\ (p.k = "K" => p.e = 0) /\ p.r # 0 /\ (<<p.x, p.y>> = <<0, 0>> \/ p.r % 6 = 0)
     /\ LET o == Quarter(<<p.x, p.y>>, Mod(-p.r, 24) \div 6) IN Put(i, <<Turn(p.r), [p EXCEPT !.r = 0, !.x = o[1], !.y = o[2]], Turn(-p.r)>>)
  \/ /\ p.k = "K" /\ p.e # 0 /\ Put(i, <<Turn(p.e), [p EXCEPT !.e = 0]>>)
  \/ /\ p.k \in {"Q", "E"} /\ \/ Put(i, <<[p EXCEPT !.r = p.r + 6, !.s = -p.s]>>)
                              \/ Put(i, <<[p EXCEPT !.r = p.r - 12]>>)
  \/ /\ p.k \in {"QP", "EP"} /\ Put(i, <<[p EXCEPT !.r = p.r - 6, !.c = [j \in 1..Len(p.c) |-> -p.c[j]]]>>)
  \/ /\ p.k = "X" /\ \/ Put(i, <<[p EXCEPT !.r = p.r - 8]>>)
                     \/ Put(i, <<[p EXCEPT !.r = p.r + 12, !.s = -p.s]>>)
  \/ /\ p.k \in {"S", "SP"} /\ \E a \in {-5, 1, 6} : Put(i, <<[p EXCEPT !.r = p.r + a]>>)
  \/ /\ p.k = "H" /\ Put(i, <<[p EXCEPT !.t = 1 - p.t, !.r = p.r + (IF p.t = 1 THEN 6 ELSE -6)]>>)
  \/ /\ p.k = "H" /\ Put(i, <<[p EXCEPT !.s = -p.s, !.r = p.r + 12]>>)
  \/ /\ p.k = "B" /\ Put(i, <<[p EXCEPT !.s = -p.s, !.e = -p.e, !.f = -p.f, !.r = p.r - 12]>>)
  \/ /\ p.k = "D" /\ p.x = 0 /\ Put(i, <<[p EXCEPT !.r = 3, !.x = 1]>>)
  \/ /\ p.k = "K" /\ LET o == Quarter(<<p.s, p.t>>, 1) IN p.v = 0 /\ Put(i, <<[p EXCEPT !.r = p.r - 6, !.s = o[1], !.t = o[2]]>>)
\* cavities: the field is periodic, changes sign after half a period, is round without multipoles, and is the same in whichever way it is written
Phase == On("phase") /\ Same /\ \E i \in At(1, Len(w)) : LET p == w[i] IN p.k = "C" /\
  \/ \E a \in {-24, 24, 240} : Put(i, <<[p EXCEPT !.t = p.t + a]>>)
  \/ /\ p.m = 1 /\ p.f = 0 /\ \E a \in {-12, 12} : Put(i, <<[p EXCEPT !.t = p.t + a, !.s = -p.s]>>)
  \/ /\ p.s = 0 /\ \E a \in {0, 5}, h \in 0..2 : Put(i, <<[p EXCEPT !.t = p.t + a, !.m = 1 - p.m, !.e = h, !.x = 1 - p.x]>>)
  \/ /\ Ord(p) = 0 /\ p.f = 0 /\ \E a \in {-7, 1, 6} : Put(i, <<[p EXCEPT !.r = p.r + a]>>)
  \/ \E h \in {<<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>}, e \in 0..2 : LET q == [p EXCEPT !.c = h, !.e = e] IN
       q # p /\ Ord(q) = Ord(p) /\ (h \in {<<3>>, <<6>>} => p.v >= 4) /\ Put(i, <<q>>)
\* a quarter turn may be made after a piece instead of before it
Pass == On("roll") /\ Same /\ \E i \in At(1, Len(w) - 1) : LET q == w[i] p == w[i + 1] IN
  /\ q.k = "R" /\ q.s % 6 = 0 /\ p.k \notin {"R"} /\ (p.k = "K" => p.e = 0)
  /\ (p.k = "C" /\ p.f = 1) => p.e = 0      \* what grows the emittance is taken in the frame of the lattice
  /\ LET o == Quarter(<<p.x, p.y>>, Mod(q.s, 24) \div 6)
         p1 == IF p.k = "C" /\ p.f = 1 THEN [p EXCEPT !.x = o[1], !.y = o[2]]
               ELSE IF p.k \in {"D", "M", "P"} THEN p ELSE [p EXCEPT !.r = p.r + q.s, !.x = o[1], !.y = o[2]]
     IN w' = SubSeq(w, 1, i - 1) \o <<p1, q>> \o SubSeq(w, i + 2, Len(w))
TurnBack == On("roll") /\ Same /\ Len(w) + 2 <= In.maxlen /\ \E i \in At(0, Len(w)), a \in {1, 6, -9} :
  w' = SubSeq(w, 1, i) \o <<Turn(a), Turn(-a)>> \o SubSeq(w, i + 1, Len(w))

(* ------------------------------------------------------------------ mirrors *)
MirX(p) == CASE p.k \in {"Q", "E"} -> [p EXCEPT !.r = -p.r, !.x = -p.x]
             [] p.k \in {"QP", "EP"} -> [p EXCEPT !.r = -p.r, !.x = -p.x]
             [] p.k = "S" -> [p EXCEPT !.s = -p.s, !.r = -p.r, !.x = -p.x]
             [] p.k = "SP" -> [p EXCEPT !.c = [j \in 1..Len(p.c) |-> -p.c[j]], !.r = -p.r, !.x = -p.x]
             [] p.k = "X" -> [p EXCEPT !.s = -p.s, !.r = -p.r, !.x = -p.x]
             [] p.k = "B" -> [p EXCEPT !.s = -p.s, !.e = -p.e, !.f = -p.f, !.r = -p.r, !.x = -p.x]
             [] p.k = "H" -> [p EXCEPT !.s = IF p.t = 1 THEN p.s ELSE -p.s, !.r = -p.r, !.x = -p.x]
             [] p.k = "K" -> [p EXCEPT !.s = -p.s, !.e = -p.e, !.r = -p.r]
             [] p.k = "R" -> Turn(-p.s)
             [] p.k = "C" -> [p EXCEPT !.r = -p.r, !.x = -p.x]
             [] OTHER -> p
MirY(p) == CASE p.k \in {"Q", "E"} -> [p EXCEPT !.r = -p.r, !.y = -p.y]
             [] p.k \in {"QP", "EP"} -> [p EXCEPT !.r = -p.r, !.y = -p.y]
             [] p.k = "S" -> [p EXCEPT !.s = -p.s, !.r = -p.r, !.y = -p.y]
             [] p.k = "SP" -> [p EXCEPT !.c = [j \in 1..Len(p.c) |-> -p.c[j]], !.r = -p.r, !.y = -p.y]
             [] p.k \in {"X", "B"} -> [p EXCEPT !.r = -p.r, !.y = -p.y]
             [] p.k = "H" -> [p EXCEPT !.s = IF p.t = 1 THEN -p.s ELSE p.s, !.r = -p.r, !.y = -p.y]
             [] p.k = "K" -> [p EXCEPT !.t = -p.t, !.e = -p.e, !.r = -p.r]
             [] p.k = "R" -> Turn(-p.s)
             [] p.k = "C" -> [p EXCEPT !.r = 12 - p.r, !.y = -p.y]      \* its dipole points up, and down when it stands on its head
             [] OTHER -> p
Mir(F(_), u) == [i \in 1..Len(u) |-> F(u[i])]

(* ------------------------------------------------------------------ the other way round: lattices that undo each other,
   momenta and phases reversed (a solenoid does so with the opposite field) *)
Back(c) == [j \in 1..Len(c) |-> c[Len(c) + 1 - j]]
Rev(p) == CASE p.k = "B" -> [p EXCEPT !.e = p.f, !.f = p.e]
            [] p.k = "S" -> [p EXCEPT !.s = -p.s]
            [] p.k \in {"QP", "EP"} -> [p EXCEPT !.c = Back(p.c)]
            [] p.k = "SP" -> [p EXCEPT !.c = Back([j \in 1..Len(p.c) |-> -p.c[j]])]
            [] p.k = "R" -> Turn(-p.s)
            [] OTHER -> p
Reversible(u) == \A i \in 1..Len(u) : u[i].k \notin {"X", "C"} /\ (u[i].k = "K" => u[i].e = 0)
Reverse(u) == [i \in 1..Len(u) |-> Rev(u[Len(u) + 1 - i])]

Init == \E i \in 1..Len(In.base) : w0 = In.base[i] /\ w = In.base[i] /\ d = 0 /\ ref = "any"
Step == Cut \/ Merge \/ Profile \/ Null \/ Insert \/ Remove \/ Describe \/ Roll \/ Phase \/ Pass \/ TurnBack
Next == d < In.depth /\ Step /\ d' = d + 1 /\ UNCHANGED w0
Spec == Init /\ [][Next]_vars

(* no law changes the meaning; mirroring twice gives the lattice itself, and mirrors meaningfully *)
MeaningOK == Meaning(w) = Meaning(w0) /\ Length(w) = Length(w0)
MirrorOK == /\ Mir(MirX, Mir(MirX, w)) = w /\ Mir(MirY, Mir(MirY, w)) = w
            /\ Meaning(Mir(MirX, w)) = Meaning(Mir(MirX, w0)) /\ Meaning(Mir(MirY, w)) = Meaning(Mir(MirY, w0))
ReverseOK == Reversible(w) => /\ Reverse(Reverse(w)) = w
                              /\ Reversible(w0) => Meaning(Reverse(w)) = Meaning(Reverse(w0))
Bounded == Len(w) <= In.maxlen
\* behaviours are printed as they are found
Out == PrintT("@@" \o ToJson([a |-> w0, b |-> w, ref |-> ref,
                  x |-> IF Len(w) % In.mir = 0 THEN Mir(MirX, w) ELSE <<>>, y |-> IF Len(w) % In.mir = 0 THEN Mir(MirY, w) ELSE <<>>,
                  z |-> IF Len(w) % In.mir = 0 /\ Reversible(w) THEN Reverse(w) ELSE <<>>]))
Report == (d = 0 \/ (In.only = 0 \/ d = In.depth)) => Out
=============================================================================
