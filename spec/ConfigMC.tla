----------------------------- MODULE ConfigMC --------------------------------
EXTENDS Config
V(t, x) == [t |-> t, x |-> x, n |-> <<>>]
V1 == {V("n", 1)}
V2 == {V("n", 1), V("n", 2)}
VS == {V("s", 1)}
VT == {V("n", 1), V("s", 1), V("v", 1)}
V2T == {V("n", 1), V("s", 1)}
K1 == <<"a">>
K2 == <<"a", "b">>
K3 == <<"a", "b", "c">>
==============================================================================
