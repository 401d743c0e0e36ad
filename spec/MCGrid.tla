------------------------------- MODULE MCGrid -------------------------------
(***************************************************************************)
(* Theorems about the geometry for every size up to MaxW x MaxH (C05, C06).*)
(***************************************************************************)
EXTENDS Grid
CONSTANTS MaxW, MaxH
VARIABLE g
Init == \E w \in 2..MaxW : \E h \in 1..MaxH : \E D \in 2..w : g = [w |-> w, h |-> h, D |-> D]
Next == UNCHANGED g
Spec == Init /\ [][Next]_g

\* Lookup by number and numbering are mutually inverse and opposite.
Numbering ==
    \A p \in Pixels(g) : \A k \in Neighbors : NeighborExists(g, p, k) =>
        LET q == NeighborOf(g, p, k)
        IN  /\ q \in Pixels(g) /\ q # p
            /\ NeighborNumber(XOf(g, p), YOf(g, p), XOf(g, q), YOf(g, q)) = k
            /\ NeighborNumber(XOf(g, q), YOf(g, q), XOf(g, p), YOf(g, p)) = Opposite(k)
            /\ NeighborOf(g, q, Opposite(k)) = p
\* Exactly the pixels that share a side have a number.
SharedSide ==
    \A p, q \in Pixels(g) :
        LET dx == XOf(g, p) - XOf(g, q) dy == YOf(g, p) - YOf(g, q)
        IN  (NeighborNumber(XOf(g, p), YOf(g, p), XOf(g, q), YOf(g, q)) # 4) <=> dx * dx + dy * dy = 1
Symmetric ==
    \A p \in Pixels(g) : \A k \in Neighbors : NeighborExists(g, p, k) =>
        \A d, e \in 0..(g.D - 1) :
            EdgeExists(g, p, k, d, e) <=> EdgeExists(g, NeighborOf(g, p, k), Opposite(k), e, d)
\* Every existing node has an existing edge to every neighbor pixel, except
\* the largest ones whose right neighbor cannot follow.
NodesHaveEdges ==
    \A p \in Pixels(g) : \A d \in Disparities(g, p) : \A k \in Neighbors :
        NeighborExists(g, p, k) => \E e \in 0..(g.D - 1) : EdgeExists(g, p, k, d, e)
\* Row-major and neighbor-minor addresses are injective and dense.
PixelAddress(p) == XOf(g, p) + g.w * YOf(g, p)
NodeAddress(p, d) == PixelAddress(p) * g.D + d
PairAddress(p, k) == PixelAddress(p) * 4 + k
CorrectionAddress(p, k, d) == PairAddress(p, k) * g.D + d
Dense ==
    /\ {PixelAddress(p) : p \in Pixels(g)} = 0..(g.w * g.h - 1)
    /\ {NodeAddress(p, d) : p \in Pixels(g), d \in 0..(g.D - 1)} = 0..(g.w * g.h * g.D - 1)
    /\ {PairAddress(p, k) : p \in Pixels(g), k \in Neighbors} = 0..(g.w * g.h * 4 - 1)
    /\ {CorrectionAddress(p, k, d) : p \in Pixels(g), k \in Neighbors, d \in 0..(g.D - 1)}
        = 0..(g.w * g.h * 4 * g.D - 1)
=============================================================================
