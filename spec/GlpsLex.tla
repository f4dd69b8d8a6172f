------------------------------ MODULE GlpsLex --------------------------------
(* The characters of a lattice text: which tokens they make (longest match), and which texts are not
   made of tokens at all.  A text is a sequence of byte values; the tokens go to the parser of Glps.

   name     a letter, then letters, digits, '_' and ':', but not ending in ':'
   number   digits, then optionally '.' and digits, then optionally an exponent; of a size a double can
            hold (neither overflowing nor vanishing)
   string   between double quotes, on one line
   comment  '#' up to and including a line break
   blank    space, tab, line break
   and the punctuation = : ; ( ) [ ] , + * / -
   Anything else is an error, which ends the text. *)
EXTENDS Glps

CHR == JsonDeserialize(IOEnv.GLPS_CHR)     \* chr: byte value + 1 -> character (as string), hex: -> two digits

Alpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Digit(c) == c >= 48 /\ c <= 57
Is(c, cl) == CASE cl = "digit" -> Digit(c)
               [] cl = "word" -> Alpha(c) \/ Digit(c) \/ c = 95 \/ c = 58
               [] cl = "comment" -> c # 10 /\ c >= 0
               [] cl = "quoted" -> c \notin {34, 10, 13} /\ c >= 0
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1
\* last position of the run of characters of class cl starting at i (i-1 if there is none)
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, cl) == IF Is(At(s, i), cl) THEN RunEnd(s, i + 1, cl) ELSE i - 1
RECURSIVE NoColon(_, _)
NoColon(s, j) == IF s[j] = 58 THEN NoColon(s, j - 1) ELSE j
NameEnd(s, i) == NoColon(s, RunEnd(s, i, "word"))
MantEnd(s, i) == LET a == RunEnd(s, i, "digit") IN IF At(s, a + 1) = 46 THEN RunEnd(s, a + 2, "digit") ELSE a
ExpStart(s, b) ==      \* first digit of the exponent after the mantissa ending at b; 0 if there is none
    IF At(s, b + 1) \notin {101, 69} THEN 0
    ELSE LET p == IF At(s, b + 2) \in {43, 45} THEN b + 3 ELSE b + 2 IN IF Digit(At(s, p)) THEN p ELSE 0
NumEnd(s, i) == LET b == MantEnd(s, i)  p == ExpStart(s, b) IN IF p = 0 THEN b ELSE RunEnd(s, p, "digit")

RECURSIVE Str(_, _, _)
Str(s, i, j) == IF i > j THEN "" ELSE CHR.chr[s[i] + 1] \o Str(s, i + 1, j)
RECURSIVE Hex(_, _, _)
Hex(s, i, j) == IF i > j THEN "" ELSE CHR.hex[s[i] + 1] \o Hex(s, i + 1, j)

\* ---------------------------------------------------------------- size of a number
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE DecVal(_, _, _, _)
DecVal(s, i, j, acc) == IF i > j THEN acc ELSE DecVal(s, i + 1, j, IF s[i] = 46 THEN acc ELSE Min2(9999999, acc * 10 + (s[i] - 48)))
RECURSIVE FirstDigit(_, _, _)      \* position of the first non-zero digit, 0 if none
FirstDigit(s, i, j) == IF i > j THEN 0 ELSE IF s[i] \in 49..57 THEN i ELSE FirstDigit(s, i + 1, j)
Pow10(n) == 10 ^ n
Number(s, i, ln) ==
    LET e == NumEnd(s, i)  b == MantEnd(s, i)  p == ExpStart(s, b)
        ip == RunEnd(s, i, "digit")                                  \* end of the integer part
        frac == IF At(s, ip + 1) = 46 THEN b - ip - 1 ELSE 0           \* number of digits after the point
        ex == IF p = 0 THEN 0 ELSE LET x == Min2(9999, DecVal(s, p, e, 0)) IN IF s[p - 1] = 45 THEN -x ELSE x
        f == FirstDigit(s, i, b)
        mag == IF f = 0 THEN 0 ELSE ex + (IF f <= ip THEN ip - f ELSE ip + 1 - f)   \* decimal exponent of the first digit
        m == DecVal(s, i, b, 0)
        sc == ex - frac
        q == IF f = 0 THEN <<0, 1>>
             ELSE IF mag > 20 THEN Big
             ELSE IF m >= 100000 THEN Unk
             ELSE IF sc >= 0 THEN (IF sc > 4 \/ ~Fits(m, Pow10(sc)) THEN Unk ELSE Norm(m * Pow10(sc), 1))
             ELSE IF sc < -4 THEN Unk ELSE Norm(m, Pow10(-sc))
        t == IF f # 0 /\ (mag >= 309 \/ mag <= -325) THEN "BAD" ELSE IF f # 0 /\ (mag = 308 \/ mag = -324) THEN "UND" ELSE "N"
    IN [t |-> t, v |-> Str(s, i, e), n |-> q[1], d |-> q[2], ln |-> ln, at |-> i, nx |-> e + 1]

\* ---------------------------------------------------------------- one token
Punct == {61, 58, 59, 40, 41, 91, 93, 44, 43, 42, 47, 45}
Tok0(t, v, ln, at, nx) == [t |-> t, v |-> v, n |-> 0, d |-> 0, ln |-> ln, at |-> at, nx |-> nx]
RECURSIVE TokenAt(_, _, _)
TokenAt(s, i, ln) ==
    LET c == At(s, i) IN
    CASE c = -1 -> Tok0("EOF", "", ln, i, i)
      [] c \in {32, 9} -> TokenAt(s, i + 1, ln)
      [] c = 10 -> TokenAt(s, i + 1, ln + 1)
      [] c = 35 -> LET e == RunEnd(s, i + 1, "comment") IN
                   IF e = Len(s) THEN Tok0("BAD", "#", ln, i, e + 1) ELSE TokenAt(s, e + 2, ln + 1)
      [] c = 34 -> LET e == RunEnd(s, i + 1, "quoted") IN
                   IF At(s, e + 1) = 34 THEN Tok0("S", Hex(s, i + 1, e), ln, i, e + 2) ELSE Tok0("BAD", "quote", ln, i, e + 1)
      [] c \in Punct -> Tok0(CHR.chr[c + 1], "", ln, i, i + 1)
      [] Alpha(c) -> LET e == NameEnd(s, i) IN Tok0("K", Str(s, i, e), ln, i, e + 1)
      [] Digit(c) -> Number(s, i, ln)
      [] OTHER -> Tok0("BAD", "char", ln, i, i + 1)

Eat(p, k) == IF k.t = "UND" THEN (IF p.dead THEN p ELSE Undecided(p)) ELSE Feed(p, [t |-> k.t, v |-> k.v, n |-> k.n, d |-> k.d, ln |-> k.ln])
Stops(k) == k.t \in {"EOF", "BAD", "UND", "done"}

RECURSIVE Lex(_, _, _)     \* all tokens from i on
Lex(s, i, ln) == LET k == TokenAt(s, i, ln) IN IF Stops(k) THEN <<k>> ELSE <<k>> \o Lex(s, k.nx, k.ln)
RECURSIVE EatAll(_, _)
EatAll(p, ks) == IF ks = <<>> THEN p ELSE EatAll(Eat(p, Head(ks)), Tail(ks))

\* ---------------------------------------------------------------- sanity of the model itself
\* tokens set apart by blanks are the same tokens again
RECURSIVE Spread(_, _)
Spread(s, ks) == IF ks = <<>> THEN <<>>
                 ELSE LET k == Head(ks) IN (IF Stops(k) THEN <<>> ELSE SubSeq(s, k.at, k.nx - 1) \o <<32>>) \o Spread(s, Tail(ks))
Bare(k) == [t |-> k.t, v |-> k.v, n |-> k.n, d |-> k.d]
Again(s) == LET a == Lex(s, 1, 1)  b == Lex(Spread(s, a), 1, 1) IN
            Last(a).t = "EOF" => Len(a) = Len(b) /\ \A i \in 1..Len(a) : Bare(a[i]) = Bare(b[i])
\* every character belongs to a token or to what may stand between tokens
Tiled(s) == LET ks == Lex(s, 1, 1) IN
            \A i \in 1..Len(ks) : LET lo == IF i = 1 THEN 1 ELSE ks[i-1].nx IN lo <= ks[i].at /\ (\A j \in lo..(ks[i].at - 1) : s[j] \in {32, 9, 10} \/ \E h \in lo..j : s[h] = 35)
==============================================================================
