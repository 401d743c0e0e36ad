------------------------------ MODULE Penalty ------------------------------
(***************************************************************************)
(* The cost model. A problem m is a record with                            *)
(*   g        geometry (Grid)                                              *)
(*   L, R     left and right image: sequences in pixel order               *)
(*   c, s     cleanness and smoothness in units of 1/den                   *)
(*   phi      phi[p][k+1][d+1], reparametrization, same units              *)
(***************************************************************************)
EXTENDS Grid, Num

\* f(p, k, d): correction of node d of pixel p towards its neighbor k
NodeFormula(c, L, R, f(_, _, _), p, d) ==
    NAdd(NMul(c, NSq(R[p] - L[p + d])),
         NAdd(NAdd(f(p, 0, d), f(p, 1, d)), NAdd(f(p, 2, d), f(p, 3, d))))
EdgeFormula(g, s, f(_, _, _), p, k, d, e) ==
    NSub(NSub(NMul(s, NSq(d - e)), f(p, k, d)), f(NeighborOf(g, p, k), Opposite(k), e))

NodePenalty(m, p, d) ==
    LET f(a, b, i) == m.phi[a][b + 1][i + 1]
    IN  NodeFormula(m.c, m.L, m.R, f, p, d)

EdgePenalty(m, p, k, d, e) ==
    LET f(a, b, i) == m.phi[a][b + 1][i + 1]
    IN  EdgeFormula(m.g, m.s, f, p, k, d, e)

ZeroPhi(g) ==
    [p \in Pixels(g) |-> [k \in 1..4 |-> [d \in 1..g.D |-> NZero]]]

\* Tables: NP[p][d+1] and EP[p][k+1][d+1][e+1]; entries of things which do
\* not exist are zero and never looked at. TLC evaluates functions lazily and
\* again at every application, so tables need TLCEval on each level.
NodeTable(m) ==
    TLCEval([p \in Pixels(m.g) |-> TLCEval([i \in 1..m.g.D |->
        IF i - 1 \in Disparities(m.g, p) THEN NodePenalty(m, p, i - 1) ELSE NZero])])

EdgeTable(m) ==
    TLCEval([p \in Pixels(m.g) |-> TLCEval([k \in 1..4 |->
        TLCEval([i \in 1..m.g.D |-> TLCEval([j \in 1..m.g.D |->
            IF EdgeExists(m.g, p, k - 1, i - 1, j - 1)
            THEN EdgePenalty(m, p, k - 1, i - 1, j - 1) ELSE NZero])])])])

\* ---- everything below is relative to given tables np, ep ----------------

LowestPixel(g, np, p) == NMin({np[p][d + 1] : d \in Disparities(g, p)})

EdgePairs(g, p, k) ==
    {de \in (0..(g.D - 1)) \X (0..(g.D - 1)) : EdgeExists(g, p, k, de[1], de[2])}

LowestNeighborhood(g, ep, p, k) ==
    NMin({ep[p][k + 1][de[1] + 1][de[2] + 1] : de \in EdgePairs(g, p, k)})

LowestPixels(g, np) == TLCEval([p \in Pixels(g) |-> LowestPixel(g, np, p)])

LowestNeighborhoods(g, ep) ==
    TLCEval([p \in Pixels(g) |-> TLCEval([k \in 1..4 |->
        IF NeighborExists(g, p, k - 1) THEN LowestNeighborhood(g, ep, p, k - 1)
        ELSE NZero])])

NodeExcess(np, lp, p, d) == NSub(np[p][d + 1], lp[p])
EdgeExcess(ep, ln, p, k, d, e) == NSub(ep[p][k + 1][d + 1][e + 1], ln[p][k + 1])

\* All candidate thresholds.
PixelExcesses(g, np, lp, p) == {NodeExcess(np, lp, p, d) : d \in Disparities(g, p)}
EdgeExcesses(g, ep, ln, p, k) ==
    {EdgeExcess(ep, ln, p, k, de[1], de[2]) : de \in EdgePairs(g, p, k)}
Excesses(g, np, ep, lp, ln) ==
    UNION {PixelExcesses(g, np, lp, p) : p \in Pixels(g)}
    \cup UNION {EdgeExcesses(g, ep, ln, pk[1], pk[2]) :
                pk \in {x \in Pixels(g) \X Neighbors : NeighborExists(g, x[1], x[2])}}

\* Nodes and edges within a threshold.
NodesWithin(g, np, lp, t) ==
    TLCEval([p \in Pixels(g) |-> TLCEval({d \in Disparities(g, p) : NLeq(NodeExcess(np, lp, p, d), t)})])
EdgesWithin(g, ep, ln, t) ==
    TLCEval([p \in Pixels(g) |-> TLCEval([k \in 1..4 |-> TLCEval([i \in 1..g.D |->
        TLCEval({e \in 0..(g.D - 1) :
            EdgeExists(g, p, k - 1, i - 1, e)
            /\ NLeq(EdgeExcess(ep, ln, p, k - 1, i - 1, e), t)})])])])

\* Energy of a labeling lab[p] (every neighborhood counted once).
RECURSIVE SumOver(_, _)
SumOver(S, F) ==      \* F is a function with a domain including S
    IF S = {} THEN NZero
    ELSE LET x == CHOOSE x \in S : TRUE IN NAdd(F[x], SumOver(S \ {x}, F))

Pairs(g) == {pk \in Pixels(g) \X {0, 2} : NeighborExists(g, pk[1], pk[2])}

Energy(g, np, ep, lab) ==
    NAdd(SumOver(Pixels(g), [p \in Pixels(g) |-> np[p][lab[p] + 1]]),
         SumOver(Pairs(g), [pk \in Pairs(g) |->
            ep[pk[1]][pk[2] + 1][lab[pk[1]] + 1][lab[NeighborOf(g, pk[1], pk[2])] + 1]]))

LowerBound(g, lp, ln) ==
    NAdd(SumOver(Pixels(g), lp),
         SumOver(Pairs(g), [pk \in Pairs(g) |-> ln[pk[1]][pk[2] + 1]]))
=============================================================================
