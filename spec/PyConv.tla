------------------------------- MODULE PyConv -------------------------------
(* Conversion of Python dictionaries to configurations and back.  Values are taken by class: what they must
   come back as is a number, a text, an array of numbers, or a list of dictionaries (the executor holds the
   values); some classes are refused, and then the whole construction is.  An element sees its own keys, and
   those of the enclosing dictionary it does not have itself.

   A lattice may also be given as text, in several ways, with an additional variable x of some class. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.MPARAM)
Num == {"float", "int", "bool", "npfloat", "npfloat32", "npint", "npbool", "inf"}
Txt == {"str", "npstr"}
Arr == {"array", "intarray", "matrix", "fortran", "strided", "reversed", "float32array", "boolarray", "scalararray", "bigendian", "empty", "transposed"}
Lst == {"dicts", "odicts", "tuples", "dicttuple", "nolist", "nested", "bytes0"}
Bad == {"none", "obj", "numlist", "dict", "cube", "strarray", "big", "complex", "surrogate", "deep", "badfloat", "mixed", "set", "bytes", "lambda", "objarray"}
Good == Num \cup Txt \cup Arr \cup Lst
All == Good \cup Bad
Few == IF P.wide = 1 THEN All ELSE {"float", "str", "array", "dicts", "numlist", "obj"}
Key == {"k", "L"}
None == "-"
VARIABLES g, o, x, how
vars == <<g, o, x, how>>
Hows == {"bytes", "str", "bytearray", "memoryview", "file", "BytesIO", "array", "keyword"}
InitDict == /\ x = None /\ how = "dict" /\ g \in [Key -> All \cup {None}] /\ o \in [Key -> All \cup {None}]
        /\ \* one key in full, the other with few values
           /\ (g["L"] \in Few \cup {None} /\ o["L"] \in Few \cup {None})
           /\ (g["k"] = None \/ o["k"] = None \/ (g["k"] \in Few /\ o["k"] \in Few) \/ P.wide = 1)
           /\ (g["L"] = None \/ o["L"] = None)
InitText == /\ g = [k \in Key |-> None] /\ o = [k \in Key |-> None]
            /\ x \in (All \ {"inf", "intarray", "array"}) \cup {None} /\ how \in Hows
Init == InitDict \/ InitText
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Has(f) == {k \in Key : f[k] # None}
\* dictionaries may be nested three deep
Deep(c) == IF c = "nested" THEN 3 ELSE IF c \in Lst THEN 1 ELSE 0
TextAccepted == x \in Num \cup Txt \cup {"scalararray"} \cup {None}
DictAccepted == \A k \in Key : g[k] \notin Bad /\ o[k] \notin Bad /\ Deep(g[k]) <= 3 /\ Deep(o[k]) <= 2
Accepted == IF how = "dict" THEN DictAccepted ELSE TextAccepted
\* the keys an element shows, and where each comes from
Shows == [k \in Has(g) \cup Has(o) |-> IF k \in Has(o) THEN o[k] ELSE g[k]]
OwnHides == \A k \in Has(o) : Shows[k] = o[k]
Rec(f) == [k \in Has(f) |-> f[k]]
Export == PrintT("@@" \o ToJson([g |-> Rec(g), o |-> Rec(o), x |-> x, how |-> how, ok |-> Accepted]))
=============================================================================
