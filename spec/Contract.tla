------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What each operation of the library guarantees, as predicates over the   *)
(* state before (np, ep, lp, ln, c, av ...), the arguments and the result. *)
(* Every operator XxxBroken returns the set of names of violated clauses;  *)
(* the operation behaves correctly iff the set is empty. The same          *)
(* operators are used as                                                   *)
(*   - guards of the actions of Stereo.tla (design level, model checked),  *)
(*   - acceptance conditions of Trace.tla (recorded executions).           *)
(* Where the order of internal work is the implementation's choice the     *)
(* contract is a relation and not a function.                              *)
(***************************************************************************)
EXTENDS Csp

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* ---- construction ---------------------------------------------------------
\* e: arguments of the constructor; weights by class: "neg", "zero", "tiny"
\* (positive, but below the machine epsilon), "pos", "nan", "inf", "neginf".
WellPosed(e) ==
    /\ e.lw >= 1 /\ e.lh >= 1 /\ e.lm >= 1 /\ Len(e.L) = e.lw * e.lh
    /\ \A j \in 1..Len(e.L) : e.L[j] <= e.lm
    /\ e.rw >= 1 /\ e.rh >= 1 /\ e.rm >= 1 /\ Len(e.R) = e.rw * e.rh
    /\ \A j \in 1..Len(e.R) : e.R[j] <= e.rm
    /\ e.lw = e.rw /\ e.lh = e.rh /\ e.lm = e.rm
    /\ e.D >= 2 /\ e.D <= e.lw
    /\ e.cc \in {"zero", "tiny", "pos"} /\ e.sc \in {"zero", "tiny", "pos"}
    /\ e.cc = "pos" \/ e.sc = "pos"
\* ---- lowest penalties ----------------------------------------------------
LowestBroken(g, np, ep, lp, ln) ==
    Clause("lowest-pixel", \A p \in Pixels(g) : lp[p] = LowestPixel(g, np, p))
    \cup Clause("lowest-neighborhood",
        \A p \in Pixels(g) : \A k \in Neighbors : NeighborExists(g, p, k) =>
            ln[p][k + 1] = LowestNeighborhood(g, ep, p, k))
    \cup Clause("lowest-symmetric",
        \A p \in Pixels(g) : \A k \in Neighbors : NeighborExists(g, p, k) =>
            ln[p][k + 1] = ln[NeighborOf(g, p, k)][Opposite(k) + 1])

\* ---- candidate thresholds ------------------------------------------------
Increasing(s) == \A i \in 1..(Len(s) - 1) : NLt(s[i], s[i + 1])
Elements(s) == {s[i] : i \in 1..Len(s)}
CandidatesBroken(expected, list) ==
    Clause("candidates-increasing", Increasing(list))
    \cup Clause("candidates-complete", expected \subseteq Elements(list))
    \cup Clause("candidates-sound", Elements(list) \subseteq expected)
    \cup Clause("candidates-from-zero", Len(list) > 0 /\ list[1] = NZero)

\* ---- threshold -----------------------------------------------------------
CspAt(g, ep, ln, t) == MkCsp(g, EdgesWithin(g, ep, ln, t))

SolvableAt(g, np, ep, lp, ln, t) ==
    ~IsEmpty(g, Largest(CspAt(g, ep, ln, t), NodesWithin(g, np, lp, t)))
LabelingAt(g, np, ep, lp, ln, t) ==
    HasLabelingFast(CspAt(g, ep, ln, t), NodesWithin(g, np, lp, t))

Below(S, t) == {a \in S : NLt(a, t)}

\* exact: compare with the existence of labelings and not only with
\* consistency (the two agree without reparametrization).
\* all: the candidates to choose from. If none of them admits a solution,
\* any of them will do.
ThresholdAmongBroken(all, g, np, ep, lp, ln, t, exact) ==
    LET Ok(a) == IF exact THEN LabelingAt(g, np, ep, lp, ln, a)
                 ELSE SolvableAt(g, np, ep, lp, ln, a)
    IN  Clause("threshold-candidate", t \in all)
        \cup Clause("threshold-sufficient", Ok(t) \/ ~Ok(NMax(all)))
        \cup Clause("threshold-minimal",
                ~Ok(t) \/ Below(all, t) = {} \/ ~Ok(NMax(Below(all, t))))
\* The list of all candidates: its last one admits a solution.
ThresholdBroken(g, np, ep, lp, ln, t, exact) ==
    ThresholdAmongBroken(TLCEval(Excesses(g, np, ep, lp, ln)), g, np, ep, lp, ln, t, exact)

\* ---- constraint graph ----------------------------------------------------
NewGraphBroken(g, np, lp, t, av) ==
    Clause("nodes-within-threshold", av = NodesWithin(g, np, lp, t))
RelationBroken(g, ep, ln, t, E) ==
    Clause("edges-within-threshold", E = EdgesWithin(g, ep, ln, t))
\* Available edges of a graph whose nodes are av.
EdgesAvailable(c, av) ==
    [p \in Pixels(c.g) |-> [k \in 1..4 |-> [i \in 1..c.g.D |->
        IF c.nb[p][k] # 0 /\ i - 1 \in av[p]
        THEN c.E[p][k][i] \cap av[c.nb[p][k]] ELSE {}]]]
EdgesBroken(c, av, E) == Clause("edges-available", E = EdgesAvailable(c, av))

SetNodeBroken(av, p, d, v, av2) ==
    Clause("set-node", av2 = [av EXCEPT ![p] = IF v THEN @ \cup {d} ELSE @ \ {d}])

\* ---- consistency steps ---------------------------------------------------
\* res[p]: disparities for which removal was recommended.
ShouldRemoveBroken(c, av, res) ==
    Clause("should-remove",
        \A p \in Pixels(c.g) : res[p] = {d \in av[p] : ~Supported(c, av, p, d)})

\* Processing one pixel removes exactly what has no support (its edges lead
\* to other pixels only, so the order inside of the pixel is immaterial).
ProcessPixelBroken(c, av, p, ret, av2) ==
    Clause("process-pixel-nodes", av2 = ProcessPixel(c, av, p))
    \cup Clause("process-pixel-report", ret <=> (av2 # av))

RowsOf(g, jobs, job) == {y \in 0..(g.h - 1) : y >= job /\ (y - job) % jobs = 0}

\* A pass over the rows job, job + jobs, ... in whatever order and with as
\* many repetitions as the implementation likes.
PassBroken(c, av, jobs, job, ret, av2) ==
    LET g == c.g
        top == Largest(c, av)
        rows == RowsOf(g, jobs, job)
        inRows(p) == YOf(g, p) \in rows
    IN  Clause("pass-only-removes", Subset(g, av2, av))
        \cup Clause("pass-keeps-consistent", Subset(g, top, av2))
        \cup Clause("pass-scope",
                \/ \A p \in Pixels(g) : ~inRows(p) => av2[p] = av[p]
                \/ IsEmpty(g, av2))
        \cup Clause("pass-reports-change", ret => av2 # av)
        \cup Clause("pass-reports-rest",
                ret \/ IsEmpty(g, av2)
                    \/ /\ av2 = av
                       /\ \A p \in Pixels(g) : inRows(p) =>
                            \A d \in av[p] : Supported(c, av, p, d))

SolveBroken(c, av, ret, av2) ==
    LET top == Largest(c, av)
    IN  Clause("solve-nodes", av2 = top)
        \cup Clause("solve-verdict", ret <=> ~IsEmpty(c.g, top))

ChooseBroken(g, np, av, p, ret, av2) ==
    Clause("choose-report", ret <=> av[p] # {})
    \cup Clause("choose-others", \A q \in Pixels(g) : q # p => av2[q] = av[q])
    \cup Clause("choose-best",
            IF av[p] = {} THEN av2[p] = {} ELSE av2[p] = {Best(np, p, av[p])})

\* ---- labeling ------------------------------------------------------------
\* exact (no reparametrization): compare with the greedy-best labeling found
\* by enumeration of columns. Otherwise: compare with the operational search.
LabelBroken(c, np, av, exact, ret, av2) ==
    IF exact
    THEN IF HasLabeling(c, av)
         THEN Clause("label-succeeds", ret)
              \cup Clause("label-greedy-best",
                    av2 = AsNodes(c.g, GreedyBest(c, np, av)))
         ELSE Clause("label-fails", ~ret)
    ELSE LET res == FindLabeling(c, np, av, 1)
         IN  Clause("label-verdict", ret <=> res[1])
             \cup Clause("label-consistent", ret => av2 = res[2])

\* ---- disparity map -------------------------------------------------------
Unambiguous(g, av) == \A p \in Pixels(g) : Cardinality(av[p]) = 1
MapBroken(g, av, r) ==   \* r: recorded result
    IF Unambiguous(g, av)
    THEN Clause("map-built", r.ok)
         \cup (IF r.ok
               THEN Clause("map-size", r.width = g.w /\ r.height = g.h
                                       /\ Len(r.data) = g.w * g.h)
                    \cup Clause("map-max", r.max = g.D)
                    \cup Clause("map-valid", r.valid)
                    \cup Clause("map-data", Len(r.data) = g.w * g.h =>
                           \A p \in Pixels(g) : av[p] = {r.data[p]})
               ELSE {})
    ELSE Clause("map-refused", ~r.ok /\ r.exc = "logic_error")
=============================================================================
