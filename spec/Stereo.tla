------------------------------- MODULE Stereo -------------------------------
(***************************************************************************)
(* The library as a state machine: one action per public operation.        *)
(*                                                                         *)
(*   m          the problem (images, weights, reparametrization)           *)
(*   np, ep     penalties of all nodes and edges (they follow m)           *)
(*   lp, ln     stored lowest penalties, <<>> until built                  *)
(*   cands      candidate thresholds (a sequence), <<>> until fetched      *)
(*   thr        chosen threshold, <<>> (none) or <<t>>                     *)
(*   cg         constraint graphs alive: [t, c, av]                        *)
(*   last       last operation: name, constraint graph (0: none), arguments *)
(*              and the clauses of its contract that its result violates   *)
(*              (always {} if the design is right)                         *)
(***************************************************************************)
EXTENDS Contract, TLC

CONSTANTS Shapes,      \* geometries to explore
          Intensities, \* set of intensities
          Weights,     \* set of <<cleanness, smoothness>>
          PhiValues,   \* values of a single non-zero correction ({}: none)
          MaxGraphs,   \* constraint graphs alive
          MaxJobs,     \* row partitions into 1..MaxJobs jobs
          Ops          \* operations to explore (names as in Did)

VARIABLES m, np, ep, lp, ln, cands, thr, cg, last
vars == <<m, np, ep, lp, ln, cands, thr, cg, last>>

DidOn(h, op, args, broken) == last' = [op |-> op, h |-> h, args |-> args, broken |-> broken]
Did(op, broken) == DidOn(0, op, <<>>, broken)

\* ---- constructing the problem -------------------------------------------
Init ==
    \E sh \in Shapes : \E wt \in Weights :
    \E L \in [1..(sh.w * sh.h) -> Intensities] :
    \E R \in [1..(sh.w * sh.h) -> Intensities] :
        /\ m = [g |-> sh, L |-> L, R |-> R, c |-> wt[1], s |-> wt[2], phi |-> ZeroPhi(sh)]
        /\ np = NodeTable(m)
        /\ ep = EdgeTable(m)
        /\ lp = <<>> /\ ln = <<>> /\ cands = <<>> /\ thr = <<>> /\ cg = <<>>
        /\ last = [op |-> "construct", h |-> 0, args |-> <<>>, broken |-> {}]

G == m.g
NoPhi == m.phi = ZeroPhi(G)
Built == lp # <<>>

\* The problem may be reparametrized until the lowest penalties are built.
SetPhi ==
    /\ "phi" \in Ops
    /\ ~Built /\ NoPhi
    /\ \E v \in PhiValues : \E p \in Pixels(G) : \E k \in Neighbors : \E d \in Disparities(G, p) :
        /\ NeighborExists(G, p, k)
        /\ m' = [m EXCEPT !.phi[p][k + 1][d + 1] = v]
        /\ np' = NodeTable(m')
        /\ ep' = EdgeTable(m')
    /\ Did("phi", {})
    /\ UNCHANGED <<lp, ln, cands, thr, cg>>

BuildLowest ==
    /\ "low" \in Ops
    /\ ~Built
    /\ lp' = LowestPixels(G, np)
    /\ ln' = LowestNeighborhoods(G, ep)
    /\ Did("low", LowestBroken(G, np, ep, lp', ln'))
    /\ UNCHANGED <<m, np, ep, cands, thr, cg>>

\* Sorted sequence of a set of numbers.
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET a == NMin(S) IN <<a>> \o Sorted(S \ {a})

Fetch ==
    /\ "cands" \in Ops
    /\ Built /\ cands = <<>>
    /\ cands' = Sorted(Excesses(G, np, ep, lp, ln))
    /\ Did("cands", CandidatesBroken(Excesses(G, np, ep, lp, ln), cands'))
    /\ UNCHANGED <<m, np, ep, lp, ln, thr, cg>>

\* The search as the program does it.
RECURSIVE Bisect(_, _)
Bisect(lo, hi) ==
    LET mid == (lo + hi) \div 2
    IN  IF lo < hi
        THEN IF SolvableAt(G, np, ep, lp, ln, cands[mid + 1]) THEN Bisect(lo, mid)
             ELSE Bisect(mid + 1, hi)
        ELSE cands[mid + 1]

FindThreshold ==
    /\ "thr" \in Ops
    /\ cands # <<>> /\ thr = <<>>
    /\ thr' = <<Bisect(0, Len(cands) - 1)>>
    /\ Did("thr", ThresholdBroken(G, np, ep, lp, ln, thr'[1], NoPhi))
    /\ UNCHANGED <<m, np, ep, lp, ln, cands, cg>>

NewGraph ==
    /\ "cg" \in Ops
    /\ cands # <<>> /\ Len(cg) < MaxGraphs
    /\ \E t \in Elements(cands) :
        LET c == CspAt(G, ep, ln, t) av == NodesWithin(G, np, lp, t)
        IN  /\ cg' = Append(cg, [t |-> t, c |-> c, av |-> av])
            /\ Did("cg", NewGraphBroken(G, np, lp, t, av) \cup RelationBroken(G, ep, ln, t, c.E))
    /\ UNCHANGED <<m, np, ep, lp, ln, cands, thr>>

\* ---- steps on one constraint graph ---------------------------------------
Step(h, op, args, av2, broken) ==
    /\ op \in Ops
    /\ cg' = [cg EXCEPT ![h].av = av2]
    /\ DidOn(h, op, args, broken)
    /\ UNCHANGED <<m, np, ep, lp, ln, cands, thr>>

DropNode(h) ==
    /\ "set" \in Ops
    /\ \E p \in Pixels(G) : \E d \in cg[h].av[p] :
           LET av2 == [cg[h].av EXCEPT ![p] = @ \ {d}]
           IN  Step(h, "set", <<p, d>>, av2, SetNodeBroken(cg[h].av, p, d, FALSE, av2))

StepPixel(h) ==
    /\ "pp" \in Ops
    /\ \E p \in Pixels(G) :
           LET av2 == ProcessPixel(cg[h].c, cg[h].av, p)
           IN  Step(h, "pp", <<p>>, av2,
                    ProcessPixelBroken(cg[h].c, cg[h].av, p, av2 # cg[h].av, av2))

\* One pass as the program does it: rows of the job, left to right, stop and
\* empty everything at the first pixel without nodes.
RECURSIVE Sweep(_, _, _, _, _, _)
Sweep(c, av, jobs, y, x, changed) ==      \* returns <<av2, report>>
    IF y >= c.g.h THEN <<av, changed>>
    ELSE LET p == PixelOf(c.g, x, y)
             av2 == ProcessPixel(c, av, p)
             ch == changed \/ av2 # av
         IN  IF av2[p] = {}
             THEN IF IsEmpty(c.g, av2) THEN <<av2, FALSE>> ELSE <<NoNodes(c.g), TRUE>>
             ELSE IF x + 1 < c.g.w THEN Sweep(c, av2, jobs, y, x + 1, ch)
             ELSE Sweep(c, av2, jobs, y + jobs, 0, ch)

Pass(h) ==
    /\ "iter" \in Ops
    /\ \E jobs \in 1..MaxJobs : \E job \in 0..(jobs - 1) :
           LET r == Sweep(cg[h].c, cg[h].av, jobs, job, 0, FALSE)
           IN  Step(h, "iter", <<jobs, job>>, r[1], PassBroken(cg[h].c, cg[h].av, jobs, job, r[2], r[1]))

\* Solving as the program does it with one job.
RECURSIVE Solved(_, _)
Solved(c, av) ==
    LET r == Sweep(c, av, 1, 0, 0, FALSE)
    IN  IF r[2] THEN Solved(c, r[1]) ELSE r[1]

Solve(h) ==
    /\ "solve" \in Ops
    /\ LET av2 == Solved(cg[h].c, cg[h].av)
       IN  Step(h, "solve", <<>>, av2, SolveBroken(cg[h].c, cg[h].av, ~IsEmpty(G, av2), av2))

Choose(h) ==
    /\ "choose" \in Ops
    /\ \E p \in Pixels(G) :
           LET av2 == KeepBest(np, cg[h].av, p)
           IN  Step(h, "choose", <<p>>, av2,
                    ChooseBroken(G, np, cg[h].av, p, cg[h].av[p] # {}, av2))

Label(h) ==
    /\ "label" \in Ops
    /\ LET r == FindLabeling(cg[h].c, np, cg[h].av, 1)
       IN  Step(h, "label", <<>>, r[2],
                LabelBroken(cg[h].c, np, cg[h].av, NoPhi, r[1], r[2]))

Next ==
    \/ SetPhi \/ BuildLowest \/ Fetch \/ FindThreshold \/ NewGraph
    \/ \E h \in 1..Len(cg) :
        DropNode(h) \/ StepPixel(h) \/ Pass(h) \/ Solve(h) \/ Choose(h) \/ Label(h)

Spec == Init /\ [][Next]_vars

\* Hidden from the fingerprint: the report of the last operation.
View == <<m, lp, cands, thr, cg>>

\* ---- properties ------------------------------------------------------------
\* C10: what solving leaves is consistent and contains every consistent
\* subset; checked against all subsets in the config for tiny problems.
Subsets(av) == {f \in [Pixels(G) -> SUBSET (0..(G.D - 1))] : Subset(G, f, av)}
LargestIsLargest ==
    \A h \in 1..Len(cg) :
        LET top == Largest(cg[h].c, cg[h].av)
        IN  /\ Consistent(cg[h].c, top)
            /\ Subset(G, top, cg[h].av)
            /\ \A f \in Subsets(cg[h].av) : Consistent(cg[h].c, f) => Subset(G, f, top)

\* C11/C16: consistency and existence of labelings agree without
\* reparametrization; with it consistency is only necessary.
SolvableIffLabeling ==
    \A h \in 1..Len(cg) :
        LET top == Largest(cg[h].c, cg[h].av)
            some == HasLabeling(cg[h].c, cg[h].av)
        IN  /\ some => ~IsEmpty(G, top)
            /\ NoPhi => (~IsEmpty(G, top) => some)

\* The column-by-column search agrees with brute force.
SearchIsExact ==
    \A h \in 1..Len(cg) :
        LET some == Labelings(cg[h].c, cg[h].av) # {}
        IN  (some <=> HasLabeling(cg[h].c, cg[h].av)) /\ (some <=> HasLabelingFast(cg[h].c, cg[h].av))

\* C14: the threshold is the minimum over all labelings of the largest excess.
Worst(lab) ==
    NMax({NodeExcess(np, lp, p, lab[p]) : p \in Pixels(G)}
         \cup {EdgeExcess(ep, ln, pk[1], pk[2], lab[pk[1]], lab[NeighborOf(G, pk[1], pk[2])])
               : pk \in Pairs(G)})
AllLabelings ==
    {lab \in [Pixels(G) -> 0..(G.D - 1)] :
        /\ \A p \in Pixels(G) : lab[p] \in Disparities(G, p)
        /\ \A pk \in Pairs(G) :
             EdgeExists(G, pk[1], pk[2], lab[pk[1]], lab[NeighborOf(G, pk[1], pk[2])])}
ThresholdIsMinimax ==
    (thr # <<>> /\ NoPhi) => thr[1] = NMin({Worst(lab) : lab \in AllLabelings})

\* C07/C08: reparametrization keeps the energy of every labeling, and the
\* lowest penalties bound it from below.
EnergyInvariant ==
    LET m0 == [m EXCEPT !.phi = ZeroPhi(G)] n0 == NodeTable(m0) e0 == EdgeTable(m0)
    IN  \A lab \in AllLabelings : Energy(G, np, ep, lab) = Energy(G, n0, e0, lab)
LowestBound ==
    Built => \A lab \in AllLabelings : NLeq(LowerBound(G, lp, ln), Energy(G, np, ep, lab))

\* C09: raising the threshold never takes anything away.
Monotone ==
    cands # <<>> => \A i \in 1..(Len(cands) - 1) :
        /\ Subset(G, NodesWithin(G, np, lp, cands[i]), NodesWithin(G, np, lp, cands[i + 1]))
        /\ LET less == EdgesWithin(G, ep, ln, cands[i])
               more == EdgesWithin(G, ep, ln, cands[i + 1])
           IN  \A p \in Pixels(G) : \A k \in 1..4 : \A d \in 1..G.D : less[p][k][d] \subseteq more[p][k][d]

\* C06: existence and availability do not depend on the direction.
SymmetricEdges ==
    \A h \in 1..Len(cg) : \A p \in Pixels(G) : \A k \in Neighbors :
        NeighborExists(G, p, k) =>
            \A d \in 0..(G.D - 1) : \A e \in 0..(G.D - 1) :
                (e \in cg[h].c.E[p][k + 1][d + 1])
                <=> (d \in cg[h].c.E[NeighborOf(G, p, k)][Opposite(k) + 1][e + 1])

\* ---- action properties -----------------------------------------------------
\* Every operation keeps its contract (C08-C11, C13-C16). An action property
\* and not an invariant because the view hides the report.
ContractsKept == [][last'.broken = {}]_vars
\* C11: consistency steps lose no labeling and never add a node.
StepsSound ==
    [][last'.op \in {"pp", "iter", "solve"} =>
        \A h \in 1..Len(cg) :
            /\ Subset(G, cg'[h].av, cg[h].av)
            /\ Labelings(cg[h].c, cg'[h].av) = Labelings(cg[h].c, cg[h].av)]_vars
\* C21: nothing an analysis does changes the problem or another graph.
ProblemStable ==
    [][(last'.op # "phi" => m' = m) /\ (Built => lp' = lp /\ ln' = ln)
       /\ (Len(cg) = Len(cg') => Cardinality({h \in 1..Len(cg) : cg'[h] # cg[h]}) <= 1)]_vars
=============================================================================
