----------------------------- MODULE MCCspConc -----------------------------
EXTENDS CspConc
Geo(w, h, D) == [w |-> w, h |-> h, D |-> D]
S222 == {Geo(2, 2, 2)}
S232 == {Geo(2, 3, 2)}
S322 == {Geo(3, 2, 2)}
All == {"one", "row", "each"}
One == {"one"}
=============================================================================
