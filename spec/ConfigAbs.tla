------------------------------ MODULE ConfigAbs ------------------------------
(* What a user of configurations relies on: a configuration is a VALUE.  Each of a few handles
   holds an inner scope (own) and its merged enclosing scopes (out).  No operation on one handle
   can be noticed through another one.  Decides C06 (independence) and C07 (shadowing). *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Slot, Key, KeySeq, Val      \* Val: set of records [t |-> tag, x |-> payload, n |-> <<>>]

NoVal == [t |-> "-", x |-> 0, n |-> <<>>]
EmptyMap == [k \in Key |-> NoVal]
EmptyCfg == [own |-> EmptyMap, out |-> EmptyMap]

VARIABLE cfg       \* [Slot -> configuration value]

Over(inner, outer) == [k \in Key |-> IF inner[k].t # "-" THEN inner[k] ELSE outer[k]]
Visible(c) == Over(c.own, c.out)
Nested(c)  == \E k \in Key : Visible(c)[k].t = "c"

AInit == cfg = [s \in Slot |-> EmptyCfg]

ASet(s, k, v)     == cfg' = [cfg EXCEPT ![s].own[k] = v]
ACopy(s, d)       == cfg' = [cfg EXCEPT ![d] = cfg[s]]
ASwap(s, d)       == cfg' = [cfg EXCEPT ![d] = cfg[s], ![s] = cfg[d]]
ANew(s, d)        == cfg' = [cfg EXCEPT ![d] = [own |-> EmptyMap, out |-> Visible(cfg[s])]]
APush(s)          == cfg' = [cfg EXCEPT ![s] = [own |-> EmptyMap, out |-> Visible(cfg[s])]]
AFlatten(s)       == cfg' = [cfg EXCEPT ![s] = [own |-> Visible(cfg[s]), out |-> EmptyMap]]
AFresh(s)         == cfg' = [cfg EXCEPT ![s] = EmptyCfg]
ANest(s, k, d)    == /\ ~Nested(cfg[d])
                     /\ cfg' = [cfg EXCEPT ![s].own[k] = [t |-> "c", x |-> 0, n |-> <<cfg[d]>>]]
AUnnest(s, k, d)  == /\ Visible(cfg[s])[k].t = "c"
                     /\ cfg' = [cfg EXCEPT ![d] = Visible(cfg[s])[k].n[1]]

ANext == \/ \E s \in Slot, k \in Key, v \in Val : ASet(s, k, v)
         \/ \E s, d \in Slot : ACopy(s, d) \/ ASwap(s, d) \/ ANew(s, d)
         \/ \E s \in Slot : APush(s) \/ AFlatten(s) \/ AFresh(s)
         \/ \E s, d \in Slot, k \in Key : ANest(s, k, d) \/ AUnnest(s, k, d)
ASpec == AInit /\ [][ANext]_cfg

(* C06, as an action property: a step changes at most the handles it names. *)
Independent == [][\E s, d \in Slot : \A o \in Slot \ {s, d} : cfg'[o] = cfg[o]]_cfg

(* C07: what a read delivers: the visible value if it has the requested type, else an error
   (or the caller's default, which the harness reports as "err" too). *)
RECURSIVE Code(_), CfgCode(_), Cat(_, _)
Cat(f, ks) == IF ks = <<>> THEN "" ELSE f[Head(ks)] \o "," \o Cat(f, Tail(ks))
Code(v) == IF v.t = "-" THEN "-" ELSE IF v.t = "c" THEN "c(" \o CfgCode(v.n[1]) \o ")" ELSE v.t \o ToString(v.x)
CfgCode(c) == Cat([k \in Key |-> Code(c.own[k])], KeySeq) \o "|" \o Cat([k \in Key |-> Code(Visible(c)[k])], KeySeq)
TypeSeq == <<"n", "s", "v", "c">>
TypedRead(c, k, ty) == IF Visible(c)[k].t = ty THEN Code(Visible(c)[k]) ELSE "err"
Obs(c) == [own  |-> [j \in 1..Len(KeySeq) |-> Code(c.own[KeySeq[j]])],
           vis  |-> [j \in 1..Len(KeySeq) |-> Code(Visible(c)[KeySeq[j]])],
           rd   |-> [j \in 1..Len(KeySeq) |-> [i \in 1..4 |-> TypedRead(c, KeySeq[j], TypeSeq[i])]],
           list |-> "ok"]
ObsAll == [s \in Slot |-> Obs(cfg[s])]
\* what an exchange hands back: the previous own value, or the default number
Ret(c, k) == IF c.own[k].t = "-" THEN "n0" ELSE Code(c.own[k])
==============================================================================
