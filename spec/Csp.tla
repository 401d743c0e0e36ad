-------------------------------- MODULE Csp --------------------------------
(***************************************************************************)
(* Constraint satisfaction on the grid. A constraint problem c has         *)
(*   g     geometry                                                        *)
(*   nb    NeighborTable(g)                                                *)
(*   E     E[p][k+1][d+1] = disparities e of neighbor k for which the edge *)
(*         from <<p, d>> is allowed by existence and threshold alone       *)
(* and av[p] is the set of available disparities of pixel p.               *)
(***************************************************************************)
EXTENDS Penalty, TLC

MkCsp(g, E) == TLCEval([g |-> g, nb |-> NeighborTable(g), E |-> E])

NoNodes(g) == [p \in Pixels(g) |-> {}]
IsEmpty(g, av) == \A p \in Pixels(g) : av[p] = {}
Subset(g, a, b) == \A p \in Pixels(g) : a[p] \subseteq b[p]

\* A node keeps its place while it has an available edge to each neighbor.
Supported(c, av, p, d) ==
    \A k \in 1..4 : c.nb[p][k] = 0 \/ (c.E[p][k][d + 1] \cap av[c.nb[p][k]]) # {}

ShouldRemove(c, av, p, d) == d \in av[p] /\ ~Supported(c, av, p, d)

Consistent(c, av) == \A p \in Pixels(c.g) : \A d \in av[p] : Supported(c, av, p, d)

ProcessPixel(c, av, p) == [av EXCEPT ![p] = {d \in @ : Supported(c, av, p, d)}]

Round(c, av) ==
    TLCEval([p \in Pixels(c.g) |-> TLCEval({d \in av[p] : Supported(c, av, p, d)})])

\* The largest consistent subset of av (Kleene iteration from above).
RECURSIVE Largest(_, _)
Largest(c, av) ==
    LET nxt == Round(c, av) IN IF nxt = av THEN av ELSE Largest(c, nxt)

\* ---- labelings -----------------------------------------------------------
\* Both directions of an edge must be allowed.
EdgeOk(c, p, k, d, e) ==
    LET q == c.nb[p][k + 1]
    IN  e \in c.E[p][k + 1][d + 1] /\ d \in c.E[q][Opposite(k) + 1][e + 1]

IsLabeling(c, av, lab) ==
    /\ \A p \in Pixels(c.g) : lab[p] \in av[p]
    /\ \A pk \in Pairs(c.g) :
          EdgeOk(c, pk[1], pk[2], lab[pk[1]], lab[c.nb[pk[1]][pk[2] + 1]])

\* Brute force, for tiny problems only.
Labelings(c, av) ==
    {lab \in [Pixels(c.g) -> 0..(c.g.D - 1)] : IsLabeling(c, av, lab)}

\* Column by column: a column assignment is a sequence of h disparities.
RECURSIVE ColumnUpTo(_, _, _, _)
ColumnUpTo(c, av, x, y) ==
    LET p == PixelOf(c.g, x, y)
    IN  IF y = 0 THEN {<<d>> : d \in av[p]}
        ELSE UNION {{Append(t, d) : d \in {d \in av[p] : EdgeOk(c, p, 3, d, t[y])}}
                    : t \in ColumnUpTo(c, av, x, y - 1)}
Column(c, av, x) == ColumnUpTo(c, av, x, c.g.h - 1)

Adjacent(c, x, t, u) ==
    \A y \in 0..(c.g.h - 1) : EdgeOk(c, PixelOf(c.g, x, y), 0, t[y + 1], u[y + 1])

\* Completions(c, av, x)[1 + i]: assignments of column x + i that extend to a
\* labeling of all columns from x + i on.
RECURSIVE Completions(_, _, _)
Completions(c, av, x) ==
    IF x = c.g.w - 1 THEN <<Column(c, av, x)>>
    ELSE LET rest == Completions(c, av, x + 1)
         IN  <<{t \in Column(c, av, x) : \E u \in rest[1] : Adjacent(c, x, t, u)}>> \o rest

HasLabeling(c, av) == Completions(c, av, 0)[1] # {}

\* The same, fast for large problems: pixels are assigned along the shorter
\* side, and only the last assigned line is remembered (all that matters for
\* the rest). Start with the largest consistent subset, which every labeling
\* lies in.
PixelInSweep(g, i) ==         \* i = 0, 1, ...
    IF g.h <= g.w THEN PixelOf(g, i \div g.h, i % g.h) ELSE i + 1
RECURSIVE SweepFrom(_, _, _, _)
SweepFrom(c, av, i, F) ==       \* F: set of last lines
    LET g == c.g
        n == IF g.h <= g.w THEN g.h ELSE g.w
        across == IF g.h <= g.w THEN 1 ELSE 3   \* towards the former line
        back == IF g.h <= g.w THEN 3 ELSE 1     \* towards the former pixel
        p == PixelInSweep(g, i)
        Fits(t, d) ==
            /\ Len(t) < n \/ EdgeOk(c, p, across, d, t[1])
            /\ (i % n) = 0 \/ EdgeOk(c, p, back, d, t[Len(t)])
        Shift(t, d) == Append(IF Len(t) < n THEN t ELSE Tail(t), d)
    IN  IF i = g.w * g.h \/ F = {} THEN F # {}
        ELSE SweepFrom(c, av, i + 1, TLCEval(UNION {{Shift(t, d) : d \in {d \in av[p] : Fits(t, d)}} : t \in F}))
HasLabelingFast(c, av) == SweepFrom(c, TLCEval(Largest(c, av)), 0, {<<>>})

\* The greedy-best labeling: columns left to right, rows top to bottom, each
\* pixel takes the cheapest, then smallest, disparity that can be completed.
Better(np, p, d, e) ==
    \/ NLt(np[p][d + 1], np[p][e + 1])
    \/ np[p][d + 1] = np[p][e + 1] /\ d < e
Best(np, p, S) == CHOOSE d \in S : \A e \in S \ {d} : Better(np, p, d, e)

RECURSIVE BestColumn(_, _, _, _, _)
BestColumn(c, np, x, y, S) ==
    IF y = c.g.h THEN CHOOSE t \in S : TRUE
    ELSE LET p == PixelOf(c.g, x, y)
             b == Best(np, p, {t[y + 1] : t \in S})
         IN  BestColumn(c, np, x, y + 1, {t \in S : t[y + 1] = b})

RECURSIVE BestColumns(_, _, _, _, _)
BestColumns(c, np, suf, x, prev) ==
    IF x = c.g.w THEN <<>>
    ELSE LET S == {t \in suf[x + 1] : x = 0 \/ Adjacent(c, x - 1, prev, t)}
             t == BestColumn(c, np, x, 0, S)
         IN  <<t>> \o BestColumns(c, np, suf, x + 1, t)

GreedyBest(c, np, av) ==
    LET cols == BestColumns(c, np, Completions(c, av, 0), 0, <<>>)
    IN  [p \in Pixels(c.g) |-> cols[XOf(c.g, p) + 1][YOf(c.g, p) + 1]]

AsNodes(g, lab) == [p \in Pixels(g) |-> {lab[p]}]

\* The same result operationally, as the program does it: choose, solve,
\* take back and drop the chosen node when nothing is left.
KeepBest(np, av, p) == [av EXCEPT ![p] = IF @ = {} THEN {} ELSE {Best(np, p, @)}]

\* Pixels in the order of processing.
OrderedPixel(g, i) == PixelOf(g, (i - 1) \div g.h, (i - 1) % g.h)

\* Returns <<report, nodes left>>.
RECURSIVE FindLabeling(_, _, _, _)
FindLabeling(c, np, av, i) ==
    IF i > c.g.w * c.g.h THEN <<TRUE, av>>
    ELSE LET p == OrderedPixel(c.g, i)
         IN  IF av[p] = {} THEN <<FALSE, av>>
             ELSE LET s == Largest(c, KeepBest(np, av, p))
                  IN  IF ~IsEmpty(c.g, s) THEN FindLabeling(c, np, s, i + 1)
                      ELSE LET r == Largest(c, [av EXCEPT ![p] = @ \ {Best(np, p, @)}])
                           IN  IF IsEmpty(c.g, r) THEN <<FALSE, r>>
                               ELSE FindLabeling(c, np, r, i)
=============================================================================
