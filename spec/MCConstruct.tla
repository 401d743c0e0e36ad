---------------------------- MODULE MCConstruct ----------------------------
(***************************************************************************)
(* All arguments of the constructor within Depth single faults of a        *)
(* well-posed problem, emitted for replay in the real code (C04).          *)
(***************************************************************************)
EXTENDS Contract, TLC, Json
CONSTANTS Depth
VARIABLES a, n
vars == <<a, n>>

Good(w, h, mx, D) ==
    [lw |-> w, lh |-> h, lm |-> mx, L |-> [i \in 1..(w * h) |-> i % (mx + 1)],
     rw |-> w, rh |-> h, rm |-> mx, R |-> [i \in 1..(w * h) |-> mx - (i % (mx + 1))],
     D |-> D, cc |-> "pos", sc |-> "pos"]
Bases == {Good(2, 2, 3, 2), Good(3, 1, 1, 3), Good(4, 2, 2, 3), Good(2, 3, 65536, 2)}

Near(x) == {x - 1, x + 1} \cup {0}
Set(f, v) == v >= 0 /\ a' = [a EXCEPT ![f] = v]
Longer(f) == a' = [a EXCEPT ![f] = Append(@, 0)]
Shorter(f) == a[f] # <<>> /\ a' = [a EXCEPT ![f] = SubSeq(@, 1, Len(@) - 1)]
Brighter(f, mx) == \E i \in 1..Len(a[f]) : a' = [a EXCEPT ![f][i] = mx + 1]
Classes == {"neg", "zero", "tiny", "pos", "nan", "inf", "neginf"}

Init == a \in Bases /\ n = 0
Fault ==
    \/ \E f \in {"lw", "lh", "lm", "rw", "rh", "rm", "D"} : \E v \in Near(a[f]) : Set(f, v)
    \/ Set("D", a.lw) \/ Set("D", a.lw + 1) \/ Set("D", 1000)
    \/ \E f \in {"L", "R"} : Longer(f) \/ Shorter(f)
    \/ Brighter("L", a.lm) \/ Brighter("R", a.rm)
    \/ \E f \in {"cc", "sc"} : \E v \in Classes : a' = [a EXCEPT ![f] = v]
    \* both images alike
    \/ \E v \in Near(a.lm) : v >= 0 /\ a' = [a EXCEPT !.lm = v, !.rm = v]
    \/ a' = [a EXCEPT !.lw = a.lh, !.lh = a.lw]
    \/ a' = [a EXCEPT !.lw = a.lh, !.lh = a.lw, !.rw = a.rh, !.rh = a.rw]
Next == n < Depth /\ Fault /\ n' = n + 1
Spec == Init /\ [][Next]_vars

View == a
\* Swapping the images does not change whether the problem is well-posed.
Swapped == [lw |-> a.rw, lh |-> a.rh, lm |-> a.rm, L |-> a.R, rw |-> a.lw, rh |-> a.lh, rm |-> a.lm,
            R |-> a.L, D |-> a.D, cc |-> a.cc, sc |-> a.sc]
SwapInvariant == WellPosed(a) <=> WellPosed(Swapped)
\* Every pixel of a well-posed problem has a node and every neighborhood an edge.
NeverVacuous ==
    WellPosed(a) =>
        LET g == [w |-> a.lw, h |-> a.lh, D |-> a.D]
        IN  \A p \in Pixels(g) : /\ 0 \in Disparities(g, p)
                                 /\ \A k \in Neighbors : NeighborExists(g, p, k) => EdgeExists(g, p, k, 0, 0)
Emitted == PrintT("EMIT " \o ToJson(a))
=============================================================================
