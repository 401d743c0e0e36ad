------------------------------- MODULE MCGpu -------------------------------
EXTENDS Gpu
Geo(w, h, D) == [w |-> w, h |-> h, D |-> D]
S212 == {Geo(2, 1, 2)}
S222 == {Geo(2, 2, 2)}
S312 == {Geo(3, 1, 2)}
S313 == {Geo(3, 1, 3)}
S322 == {Geo(3, 2, 2)}
S412 == {Geo(4, 1, 2)}
SRow == {Geo(2, 1, 2), Geo(3, 1, 2), Geo(3, 1, 3)}
=============================================================================
