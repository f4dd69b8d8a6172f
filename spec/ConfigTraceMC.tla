--------------------------- MODULE ConfigTraceMC -----------------------------
EXTENDS ConfigTrace
K1 == <<"a">>
K2 == <<"a", "b">>
K3 == <<"a", "b", "c">>
==============================================================================
