------------------------------ MODULE MCStereo ------------------------------
(***************************************************************************)
(* Bounded instances of Stereo.tla, and the emission of its transitions    *)
(* for replay in the real code (ACTION_CONSTRAINT Emit).                   *)
(***************************************************************************)
EXTENDS Stereo, Json
Geo(w, h, D) == [w |-> w, h |-> h, D |-> D]
Shapes212 == {Geo(2, 1, 2)}
Shapes312 == {Geo(2, 1, 2), Geo(3, 1, 2)}
ShapesRow == {Geo(2, 1, 2), Geo(3, 1, 2), Geo(3, 1, 3)}
ShapesRow4 == {Geo(4, 1, 3), Geo(4, 1, 2)}
ShapesSquare == {Geo(2, 2, 2)}
ShapesMixed == ShapesRow \cup ShapesSquare
ShapesFlat == {Geo(3, 2, 2)}
ShapesTall == {Geo(2, 3, 2)}
W3 == {<<1, 0>>, <<0, 1>>, <<1, 1>>}
W2 == {<<1, 1>>, <<1, 3>>}
W1 == {<<1, 1>>}
I2 == {0, 1}
I3 == {0, 1, 3}
None == {}
Phis == {-2, 1}

OpsProblem == {"phi", "low"}
OpsCandidates == OpsProblem \cup {"cands"}
OpsThreshold == OpsCandidates \cup {"thr"}
OpsGraph == OpsCandidates \cup {"cg", "set"}
OpsSteps == OpsGraph \cup {"pp", "iter"}
OpsSolve == OpsGraph \cup {"solve"}
OpsChoose == OpsGraph \cup {"choose"}
OpsLabel == OpsGraph \cup {"label"}
OpsAll == OpsThreshold \cup OpsSteps \cup {"solve", "choose", "label"}

\* Every transition of the state graph as one line.
Corrections == {<<p, k, d, m'.phi[p][k + 1][d + 1]>> :
    <<p, k, d>> \in {x \in Pixels(G) \X Neighbors \X (0..(G.D - 1)) :
                        m'.phi[x[1]][x[2] + 1][x[3] + 1] # NZero}}
Emit ==
    last'.op \in {"phi", "low"} \/
    PrintT("EMIT " \o ToJson(
        [w |-> G.w, h |-> G.h, D |-> G.D, L |-> m.L, R |-> m.R, c |-> m.c, s |-> m.s,
         phi |-> Corrections, op |-> last'.op, args |-> last'.args,
         t |-> IF last'.h # 0 THEN cg[last'.h].t ELSE IF last'.op = "cg" THEN cg'[Len(cg')].t ELSE 0,
         av |-> IF last'.h # 0 THEN [p \in Pixels(G) |-> cg[last'.h].av[p]] ELSE <<>>]))
=============================================================================
