-------------------------------- MODULE Glps ---------------------------------
(* The lattice language: a token-driven parser/evaluator and the lattice it denotes.
   One transition per token (Feed), statement effects at the closing ';', and the meaning of the
   whole text at its end (Outcome).  Decides C08 (beamline expansion), C09 (accept/reject),
   C10 (print/parse), C21 (expressions), C22 (names of files).

   Numbers are carried as a reverse-polish term (evaluated in IEEE arithmetic by the harness)
   together with an exact rational when that is known; <<0,0>> means "not known exactly". *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* ---------------------------------------------------------------- numbers
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Unk == <<0, 0>>
Known(q) == q[2] # 0
Big == <<1, 0>>                 \* not known exactly, and perhaps too large to compute with
U2(a, b) == IF a = Big \/ b = Big THEN Big ELSE Unk
Lim == 100000
Norm(n, d) == IF d = 0 THEN Unk
              ELSE LET g == Gcd(Abs(n), Abs(d))
                       s == IF d < 0 THEN -1 ELSE 1
                       nn == IF g = 0 THEN n ELSE s * (n \div g)
                       dd == IF g = 0 THEN d ELSE s * (d \div g)
                   IN IF Abs(nn) > Lim \/ dd > Lim THEN Unk ELSE <<nn, dd>>
\* TLC integers are 32 bit
Fits(x, y) == y = 0 \/ Abs(x) <= 1000000000 \div Abs(y)
QAdd(a, b) == IF Known(a) /\ Known(b) /\ Fits(a[1], b[2]) /\ Fits(b[1], a[2]) /\ Fits(a[2], b[2]) THEN Norm(a[1]*b[2] + b[1]*a[2], a[2]*b[2]) ELSE U2(a, b)
QNeg(a)    == IF Known(a) THEN <<-a[1], a[2]>> ELSE a
QMul(a, b) == IF Known(a) /\ Known(b) /\ Fits(a[1], b[1]) /\ Fits(a[2], b[2]) THEN Norm(a[1]*b[1], a[2]*b[2]) ELSE U2(a, b)
QDiv(a, b) == IF Known(a) /\ Known(b) /\ b[1] # 0 /\ Fits(a[1], b[2]) /\ Fits(a[2], b[1]) THEN Norm(a[1]*b[2], a[2]*b[1]) ELSE U2(a, b)
\* truncation towards zero of a non-negative rational
Trunc(q) == q[1] \div q[2]

\* ---------------------------------------------------------------- values
Val0 == [k |-> "-", r |-> <<>>, q |-> Unk, s |-> "", l |-> <<>>, vs |-> <<>>, c |-> <<>>]
NumV(r, q) == [Val0 EXCEPT !.k = "n", !.r = r, !.q = q]
StrV(s)  == [Val0 EXCEPT !.k = "s", !.s = s]
VecV(vs) == [Val0 EXCEPT !.k = "v", !.vs = vs]
LineV(l) == [Val0 EXCEPT !.k = "l", !.l = l]
CfgV(o)  == [Val0 EXCEPT !.k = "c", !.c = <<o>>]     \* the configuration of another lattice
Plain == {"n", "v", "s", "c"}                       \* what a variable or property can hold
ErrV     == [Val0 EXCEPT !.k = "err"]      \* an operation without meaning
UndV     == [Val0 EXCEPT !.k = "und"]      \* outside what the model decides exactly

Fun1 == {"sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "deg2rad", "rad2deg"}
FunQ(f, q) == IF q = <<0, 1>> /\ f \in {"sin", "tan", "asin", "atan", "arcsin", "arctan", "deg2rad", "rad2deg"} THEN <<0, 1>>
              ELSE IF q = <<0, 1>> /\ f = "cos" THEN <<1, 1>>
              ELSE IF q = <<1, 1>> /\ f \in {"acos", "arccos"} THEN <<0, 1>>
              ELSE Unk

\* ---------------------------------------------------------------- files
\* FS.nodes: the tree (1 is its root): k: "d"irectory with kids, "f"ile with toks, "l"ink with target to
\*           (from the root if abs); up: its directory, path: its canonical name
\* FS.names: every string that is used as a name, in components
FS == IF "GLPS_FS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.GLPS_FS) ELSE [nodes |-> <<[k |-> "d", up |-> 0, kids |-> <<>>, path |-> "/"]>>, names |-> [x \in {} |-> 0]]
Missing == 0
Outside == -1       \* leaves the tree: not decided
Looping == -2
RECURSIVE Walk(_, _, _)
Walk(n, cs, fuel) ==
   IF n <= 0 \/ cs = <<>> THEN n
   ELSE IF FS.nodes[n].k # "d" THEN Missing
   ELSE LET c == Head(cs)  ks == FS.nodes[n].kids  hit == {i \in 1..Len(ks) : ks[i].name = c} IN
        IF c \in {"", "."} THEN Walk(n, Tail(cs), fuel)
        ELSE IF c = ".." THEN Walk(IF FS.nodes[n].up = 0 THEN Outside ELSE FS.nodes[n].up, Tail(cs), fuel)
        ELSE IF hit = {} THEN Missing
        ELSE LET m == ks[CHOOSE i \in hit : TRUE].n IN
             IF FS.nodes[m].k # "l" THEN Walk(m, Tail(cs), fuel)
             ELSE IF fuel = 0 THEN Looping
             ELSE Walk(IF FS.nodes[m].abs THEN 1 ELSE n, FS.nodes[m].to \o Tail(cs), fuel - 1)
\* the node a name stands for, in directory cwd
Named(nm, cwd) == Walk(IF nm.abs THEN 1 ELSE cwd, nm.cs, 8)
RECURSIVE Slashed(_)
Slashed(cs) == IF cs = <<>> THEN "" ELSE "/" \o Head(cs) \o Slashed(Tail(cs))
\* a canonical name ends in no slash; what a name given with one at its end gives is left open
OpenEnd(cs) == cs # <<>> /\ cs[Len(cs)] = ""
FileV(nm, cwd) == LET n == Named(nm, cwd) IN
                  IF n = Outside \/ (OpenEnd(nm.cs) /\ n > 0) THEN UndV ELSE IF n <= 0 THEN ErrV ELSE StrV(FS.nodes[n].path)
\* h5file: the longest leading part that exists, followed by the rest as it is
RECURSIVE H5V(_, _, _)
H5V(nm, cwd, i) ==
   LET cs == SubSeq(nm.cs, 1, i)  n == Named([nm EXCEPT !.cs = cs], cwd) IN
   IF i = 0 /\ ~nm.abs THEN ErrV
   ELSE IF n \in {Outside, Looping} \/ (OpenEnd(cs) /\ n > 0) THEN UndV
   ELSE IF n > 0 THEN StrV(FS.nodes[n].path \o Slashed(SubSeq(nm.cs, i + 1, Len(nm.cs))))
   ELSE IF i = 0 THEN ErrV ELSE H5V(nm, cwd, i - 1)
FunF == {"file", "dir", "h5file"}
NoName == [abs |-> FALSE, cs |-> <<"no such name">>]
Canonical(s) == {n \in 1..Len(FS.nodes) : FS.nodes[n].k # "l" /\ FS.nodes[n].path = s}
\* strings that are neither given nor canonical names have been put together by h5file(): not decided
NameOf(s) == IF s \in DOMAIN FS.names THEN FS.names[s]
             ELSE IF Canonical(s) # {} THEN [abs |-> TRUE, cs |-> FS.nodes[CHOOSE n \in Canonical(s) : TRUE].cs]
             ELSE IF Len(FS.nodes) = 1 THEN NoName ELSE [abs |-> TRUE, cs |-> <<"..">>]
OnFile(f, s, cwd) == LET nm == NameOf(s) IN IF f = "h5file" THEN H5V(nm, cwd, Len(nm.cs)) ELSE FileV(nm, cwd)

Rep(l, n) == IF l = <<>> THEN <<>> ELSE [i \in 1..(Len(l) * n) |-> l[((i - 1) % Len(l)) + 1]]
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
MaxLine == 100000
Repeat(l, q) == IF ~Known(q) THEN UndV
                ELSE IF q[1] < 0 THEN ErrV
                ELSE IF ~Fits(Len(l), Trunc(q)) \/ Len(l) * Trunc(q) > MaxLine THEN UndV
                ELSE LineV(Rep(l, Trunc(q)))

Unary(f, a) ==
   IF a.k = "und" THEN UndV
   ELSE IF f = "u-" /\ a.k = "n" THEN NumV(Append(a.r, "u-"), QNeg(a.q))
   ELSE IF f = "u-" /\ a.k = "l" THEN LineV(Rev(a.l))
   ELSE IF f \in Fun1 /\ a.k = "n" THEN NumV(Append(a.r, f), FunQ(f, a.q))
   ELSE ErrV
\* might this number be infinite or not a number?  (literals of that size or functions with poles)
MaybeInf(a) == ~Known(a.q) /\ (a.q = Big \/ \E i \in 1..Len(a.r) : a.r[i] \in {"asin", "acos", "arcsin", "arccos", "tan"})
Binary(o, a, b) ==
   IF a.k = "und" \/ b.k = "und" THEN UndV
   ELSE IF a.k = "n" /\ b.k = "n"
        THEN LET r == Append(a.r \o b.r, o) IN
             CASE o = "+" -> NumV(r, QAdd(a.q, b.q))
               [] o = "-" -> NumV(r, QAdd(a.q, QNeg(b.q)))
               [] o = "*" -> NumV(r, QMul(a.q, b.q))
               [] o = "/" -> IF ~Known(b.q) \/ MaybeInf(a) THEN UndV ELSE IF b.q[1] = 0 THEN ErrV ELSE NumV(r, QDiv(a.q, b.q))
   ELSE IF o = "*" /\ a.k = "n" /\ b.k = "l" THEN Repeat(b.l, a.q)
   ELSE IF o = "*" /\ a.k = "l" /\ b.k = "n" THEN Repeat(a.l, b.q)
   ELSE ErrV

\* ---------------------------------------------------------------- parser state
Frame(kind, fn) == [kind |-> kind, fn |-> fn, want |-> "operand", pend |-> "", vals |-> <<>>, ops |-> <<>>, items |-> <<>>]
PS0 == [m |-> "S0", kw1 |-> "", kw2 |-> "", key |-> "", props |-> <<>>, list |-> <<>>, fr |-> <<>>,
        vars |-> <<>>, elems |-> <<>>, lines |-> <<>>, prints |-> <<>>,
        err |-> 0, errst |-> 0, dead |-> FALSE, und |-> FALSE, st |-> 1, ln |-> 1, cwd |-> 1, lvl |-> 0]

Idx(seq, name) == {i \in 1..Len(seq) : seq[i].name = name}
Find(seq, name) == seq[CHOOSE i \in Idx(seq, name) : \A j \in Idx(seq, name) : i <= j]

\* first error wins; "stop" ends the parse at once
Fail(p, stop) == [p EXCEPT !.err = IF p.err = 0 THEN p.ln ELSE p.err,
                           !.errst = IF p.err = 0 THEN p.st ELSE p.errst,
                           !.dead = p.dead \/ stop]
Undecided(p) == [p EXCEPT !.und = TRUE, !.dead = TRUE]

Lookup(p, name) ==
   IF Idx(p.vars, name) # {} THEN Find(p.vars, name).val
   ELSE IF Idx(p.elems, name) # {} THEN LineV(<<name>>)
   ELSE IF Idx(p.lines, name) # {} THEN LineV(Find(p.lines, name).l)
   ELSE IF name = "pi" THEN NumV(<<"pi">>, Unk)
   ELSE ErrV

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Top(p) == Last(p.fr)
SetTop(p, f) == [p EXCEPT !.fr = Append(Front(p.fr), f)]
PushF(p, f) == [p EXCEPT !.fr = Append(p.fr, f)]
PopF(p) == [p EXCEPT !.fr = Front(p.fr)]

Prec(o) == CASE o \in {"+", "-"} -> 1 [] o \in {"*", "/"} -> 2 [] o = "u-" -> 3

\* push a value; it may be an error of evaluation
PushVal(p, v) == IF v.k = "err" THEN Fail(p, TRUE)
                 ELSE IF v.k = "und" THEN Undecided(p)
                 ELSE LET f == Top(p) IN SetTop(p, [f EXCEPT !.vals = Append(f.vals, v), !.want = "operator", !.pend = ""])

\* reduce while the operator on top binds at least as tightly as `prec`
RECURSIVE Reduce(_, _)
Reduce(p, prec) ==
   IF p.dead \/ Top(p).ops = <<>> \/ Prec(Last(Top(p).ops)) < prec THEN p
   ELSE LET f == Top(p)  o == Last(f.ops)  n == Len(f.vals)
            a1 == f.vals[n]
            f1 == IF o = "u-" THEN [f EXCEPT !.ops = Front(f.ops), !.vals = SubSeq(f.vals, 1, n - 1)]
                  ELSE [f EXCEPT !.ops = Front(f.ops), !.vals = SubSeq(f.vals, 1, n - 2)]
            v == IF o = "u-" THEN Unary("u-", a1) ELSE Binary(o, f.vals[n - 1], a1)
        IN Reduce(PushVal(SetTop(p, f1), v), prec)

\* ---------------------------------------------------------------- statements
StartExpr(p, mode) == [p EXCEPT !.m = mode, !.fr = <<Frame("top", "")>>]
EndStmt(p) == [p EXCEPT !.m = "S0", !.fr = <<>>, !.props = <<>>, !.list = <<>>, !.kw1 = "", !.kw2 = "", !.key = ""]

Assign(p, v) == IF v.k \notin Plain THEN Fail(p, FALSE)
                ELSE IF Idx(p.vars, p.kw1) # {} THEN Fail(p, FALSE)
                ELSE [p EXCEPT !.vars = Append(p.vars, [name |-> p.kw1, val |-> v])]
AddElem(p) == IF Idx(p.elems, p.kw1) # {} THEN Fail(p, FALSE)
              ELSE [p EXCEPT !.elems = Append(p.elems, [name |-> p.kw1, type |-> p.kw2, props |-> p.props])]
IsLINE(s) == s \in {"LINE", "LINe", "LInE", "LIne", "LiNE", "LiNe", "LinE", "Line", "lINE", "lINe", "lInE", "lIne", "liNE", "liNe", "linE", "line"}
AddLine(p) == IF ~IsLINE(p.kw2) THEN Fail(p, FALSE)
              ELSE IF Idx(p.lines, p.kw1) # {} THEN Fail(p, FALSE)
              ELSE [p EXCEPT !.lines = Append(p.lines, [name |-> p.kw1, l |-> p.list])]
Call(p, v) == IF p.kw1 # "print" THEN Fail(p, FALSE)
              ELSE [p EXCEPT !.prints = Append(p.prints, [ln |-> p.ln, val |-> v])]
\* the first textual occurrence of a repeated property counts
AddProp(p, v) == IF Idx(p.props, p.key) # {} THEN p
                 ELSE [p EXCEPT !.props = Append(p.props, [name |-> p.key, val |-> v])]
AddItem(p, v) == IF v.k # "l" THEN Fail(p, TRUE) ELSE [p EXCEPT !.list = p.list \o v.l]

\* a complete expression value v at the closing token t of a statement part
TopEnd(p, t, v) ==
   CASE p.m = "assign" /\ t = ";" -> EndStmt(Assign(p, v))
     [] p.m = "call" /\ t = ")" -> [p EXCEPT !.m = "call2", !.fr = <<>>, !.props = <<[name |-> "", val |-> v]>>]
     [] p.m = "prop" /\ t = "," -> [AddProp(p, v) EXCEPT !.m = "key", !.fr = <<>>]
     [] p.m = "prop" /\ t = ";" -> EndStmt(AddElem(AddProp(p, v)))
     [] p.m = "line" /\ t = "," -> LET q == AddItem(p, v) IN IF q.dead THEN q ELSE StartExpr(q, "line")
     [] p.m = "line" /\ t = ")" -> LET q == AddItem(p, v) IN IF q.dead THEN q ELSE [q EXCEPT !.m = "line2", !.fr = <<>>]
     [] OTHER -> Fail(p, TRUE)

\* parse(): what another lattice means on its own, in its own directory; what it prints is printed here
RECURSIVE FeedAll(_, _)
RECURSIVE Outcome(_)
Nested(p, s) ==
   LET nm == NameOf(s)  n == Named(nm, p.cwd) IN
   IF n = Outside \/ (OpenEnd(nm.cs) /\ n > 0) \/ p.lvl > 5 THEN [p |-> p, v |-> UndV]
   ELSE IF n <= 0 \/ FS.nodes[n].k # "f" THEN [p |-> p, v |-> ErrV]
   ELSE LET q == FeedAll([PS0 EXCEPT !.cwd = FS.nodes[n].up, !.lvl = p.lvl + 1], FS.nodes[n].toks)  o == Outcome(q)
            p1 == [p EXCEPT !.prints = p.prints \o q.prints]
        IN [p |-> p1, v |-> CASE o.res = "und" -> UndV [] o.res = "err" -> ErrV [] OTHER -> CfgV([o EXCEPT !.prints = <<>>])]
Apply(p, f, a) == IF f \in FunF THEN [p |-> p, v |-> IF a.k # "s" THEN ErrV ELSE OnFile(f, a.s, p.cwd)]
                  ELSE IF f = "parse" /\ a.k = "s" THEN Nested(p, a.s)
                  ELSE [p |-> p, v |-> Unary(f, a)]

\* close the innermost bracket, handing its value to the enclosing expression
Close(p, v) == PushVal(PopF(p), v)

CloseTok(p, t) ==      \* t closes or separates; operators of the innermost frame are all reduced
   LET f == Top(p)  v == IF f.vals = <<>> THEN ErrV ELSE Last(f.vals) IN
   IF p.dead THEN p
   ELSE CASE f.kind = "top" -> TopEnd(p, t, v)
          [] f.kind = "par" /\ t = ")" -> Close(p, v)
          [] f.kind = "fun" /\ t = ")" -> LET r == Apply(p, f.fn, v) IN Close(r.p, r.v)
          [] f.kind = "vec" /\ t \in {",", "]"} ->
               IF v.k # "n" THEN Fail(p, TRUE)
               ELSE LET g == [f EXCEPT !.items = Append(f.items, v.r), !.vals = <<>>, !.want = "operand"] IN
                    IF t = "," THEN SetTop(p, g) ELSE Close(p, VecV(g.items))
          [] OTHER -> Fail(p, TRUE)

InExpr(p, k) ==        \* k: token
   LET f == Top(p)  t == k.t IN
   IF f.want = "operand"
   THEN CASE t = "N" -> PushVal(p, NumV(<<k.v>>, <<k.n, k.d>>))
          [] t = "S" -> PushVal(p, StrV(k.v))
          [] t = "K" -> SetTop(p, [f EXCEPT !.pend = k.v, !.want = "operator"])
          [] t = "-" -> SetTop(p, [f EXCEPT !.ops = Append(f.ops, "u-")])
          [] t = "(" -> PushF(p, Frame("par", ""))
          [] t = "[" -> PushF(p, Frame("vec", ""))
          [] t = "]" /\ f.kind = "vec" /\ f.vals = <<>> /\ f.ops = <<>> -> Close(p, VecV(f.items))
          [] t = ")" /\ f.kind = "top" /\ p.m = "line" /\ f.vals = <<>> /\ f.ops = <<>> -> [p EXCEPT !.m = "line2", !.fr = <<>>]
          [] OTHER -> Fail(p, TRUE)
   ELSE IF f.pend # "" /\ t = "(" THEN PushF(SetTop(p, [f EXCEPT !.pend = "", !.want = "operand"]), Frame("fun", f.pend))
   ELSE LET p1 == IF f.pend # "" THEN PushVal(p, Lookup(p, f.pend)) ELSE p IN
        IF p1.dead THEN p1
        ELSE IF t \in {"+", "-", "*", "/"}
             THEN LET p2 == Reduce(p1, Prec(t)) IN
                  IF p2.dead THEN p2
                  ELSE LET g == Top(p2) IN SetTop(p2, [g EXCEPT !.ops = Append(g.ops, t), !.want = "operand"])
        ELSE IF t \in {")", "]", ",", ";"} THEN CloseTok(Reduce(p1, 0), t)
        ELSE Fail(p1, TRUE)

\* ---------------------------------------------------------------- one token
Feed(p0, k) ==
   IF p0.dead THEN p0
   ELSE LET p == [p0 EXCEPT !.ln = k.ln, !.st = IF p0.m = "S0" THEN k.ln ELSE p0.st]  t == k.t IN
   IF t = "BAD" THEN Fail(p, TRUE)
   ELSE IF t = "EOF" THEN IF p.m = "S0" THEN [p EXCEPT !.m = "END"] ELSE Fail(p, TRUE)
   ELSE CASE p.m = "S0" -> IF t = "K" THEN [p EXCEPT !.m = "S1", !.kw1 = k.v] ELSE Fail(p, TRUE)
          [] p.m = "S1" -> CASE t = "=" -> StartExpr(p, "assign")
                             [] t = ":" -> [p EXCEPT !.m = "S2"]
                             [] t = "(" -> StartExpr(p, "call")
                             [] t = ";" -> EndStmt(IF p.kw1 = "END" THEN p ELSE Fail(p, FALSE))
                             [] OTHER -> Fail(p, TRUE)
          [] p.m = "S2" -> IF t = "K" THEN [p EXCEPT !.m = "S3", !.kw2 = k.v] ELSE Fail(p, TRUE)
          [] p.m = "S3" -> CASE t = "," -> [p EXCEPT !.m = "key"]
                             [] t = ";" -> EndStmt(AddElem(p))
                             [] t = "=" -> [p EXCEPT !.m = "open"]
                             [] OTHER -> Fail(p, TRUE)
          [] p.m = "key" -> IF t = "K" THEN [p EXCEPT !.m = "keq", !.key = k.v] ELSE Fail(p, TRUE)
          [] p.m = "keq" -> IF t = "=" THEN StartExpr(p, "prop") ELSE Fail(p, TRUE)
          [] p.m = "open" -> IF t = "(" THEN StartExpr(p, "line") ELSE Fail(p, TRUE)
          [] p.m = "line2" -> IF t = ";" THEN EndStmt(AddLine(p)) ELSE Fail(p, TRUE)
          [] p.m = "call2" -> IF t = ";" THEN EndStmt(Call(p, p.props[1].val)) ELSE Fail(p, TRUE)
          [] OTHER -> InExpr(p, k)

FeedAll(p, ks) == IF ks = <<>> THEN p ELSE FeedAll(Feed(p, Head(ks)), Tail(ks))

\* ---------------------------------------------------------------- meaning of a whole text
\* error: res = "err" with line (0: not tied to a line) and the line its statement starts on
Bad(p, why) == [res |-> "err", line |-> 0, st |-> 0, why |-> why, vars |-> <<>>, name |-> "", elems |-> <<>>, prints |-> p.prints]
Good(p, name, es) == [res |-> "ok", line |-> 0, st |-> 0, why |-> "", vars |-> p.vars, name |-> name, elems |-> es, prints |-> p.prints]
VarsOnly(p) == IF p.und THEN [Bad(p, "undecided") EXCEPT !.res = "und"]
               ELSE IF p.err # 0 THEN [Bad(p, "statement") EXCEPT !.line = p.err, !.st = p.errst]
               ELSE Good(p, "", <<>>)
Outcome(p) ==
   IF p.und THEN [Bad(p, "undecided") EXCEPT !.res = "und"]
   ELSE IF p.err # 0 THEN [Bad(p, "statement") EXCEPT !.line = p.err, !.st = p.errst]
   ELSE IF p.lines = <<>> THEN Bad(p, "no beamline")
   ELSE LET use == Idx(p.elems, "USE")
            target == IF use = {} THEN Last(p.lines).name ELSE Find(p.elems, "USE").type
        IN IF Idx(p.lines, target) = {} THEN Bad(p, "use of undefined line")
           ELSE LET L == Find(p.lines, target)
                    es == [i \in 1..Len(L.l) |-> Find(p.elems, L.l[i])]
                IN IF L.l = <<>> THEN Bad(p, "empty line")
                   ELSE IF \E i \in 1..Len(es) : \E j \in 1..Len(es[i].props) : es[i].props[j].val.k \notin Plain
                        THEN Bad(p, "property without value")
                   ELSE Good(p, target, es)

\* ---------------------------------------------------------------- sanity of the model itself
\* (checked by TLC on every reachable parser state)
RefsDefined(p) == /\ \A i \in 1..Len(p.lines) : \A j \in 1..Len(p.lines[i].l) : Idx(p.elems, p.lines[i].l[j]) # {}
                  /\ \A i, j \in 1..Len(p.vars) : i # j => p.vars[i].name # p.vars[j].name
                  /\ \A i, j \in 1..Len(p.elems) : i # j => p.elems[i].name # p.elems[j].name
                  /\ \A i, j \in 1..Len(p.lines) : i # j => p.lines[i].name # p.lines[j].name

\* Independent (declarative) meaning of a flat token sequence of numbers, binary operators, unary
\* minus and parentheses: split at the last lowest-precedence operator outside parentheses.
Depth(ks, i) == Cardinality({j \in 1..i : ks[j].t = "("}) - Cardinality({j \in 1..i : ks[j].t = ")"})
IsBin(ks, i) == /\ ks[i].t \in {"+", "-", "*", "/"} /\ i > 1 /\ Depth(ks, i) = 0
                /\ ks[i-1].t \in {"N", ")", "K"}
RECURSIVE Den(_, _)
Den(ks, p) ==
   LET lo == {i \in 1..Len(ks) : IsBin(ks, i) /\ ks[i].t \in {"+", "-"}}
       hi == {i \in 1..Len(ks) : IsBin(ks, i) /\ ks[i].t \in {"*", "/"}}
       Mx(S) == CHOOSE i \in S : \A j \in S : j <= i
       At(i) == LET a == Den(SubSeq(ks, 1, i - 1), p)
                    b == Den(SubSeq(ks, i + 1, Len(ks)), p)
                IN IF a.k = "err" \/ b.k = "err" THEN ErrV ELSE Binary(ks[i].t, a, b)
   IN IF ks = <<>> THEN ErrV
      ELSE IF lo # {} THEN At(Mx(lo))
      ELSE IF hi # {} THEN At(Mx(hi))
      ELSE IF ks[1].t = "-" THEN LET a == Den(Tail(ks), p) IN IF a.k = "err" THEN ErrV ELSE Unary("u-", a)
      ELSE IF Len(ks) = 1 THEN CASE ks[1].t = "N" -> NumV(<<ks[1].v>>, <<ks[1].n, ks[1].d>>) [] ks[1].t = "K" -> Lookup(p, ks[1].v) [] OTHER -> ErrV
      ELSE IF ks[1].t = "(" /\ ks[Len(ks)].t = ")" /\ Depth(ks, Len(ks)) = 0 THEN Den(SubSeq(ks, 2, Len(ks) - 1), p)
      ELSE ErrV
==============================================================================
