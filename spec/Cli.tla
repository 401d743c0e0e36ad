-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command stereo_parallel: which invocation has which outcome.        *)
(*                                                                         *)
(* An invocation v is a record                                             *)
(*   args      sequence of [opt, val, class]: opt is the canonical name of *)
(*             an option or "unknown"; val is the text of the value as     *)
(*             character codes; class is "none" if the value is missing    *)
(*             and otherwise what kind of value it is (see below)          *)
(*   left, right   the texts of the input files (codes), or Missing        *)
(*   writable  can the output be written? 1: yes, 0: no, 2: it fails after *)
(*             a part of it was written                                    *)
(*                                                                         *)
(* Outcomes: "help" (options printed, success), "usage" (options printed),  *)
(* "fail" (diagnostic, failure, output untouched), "map" (success).        *)
(***************************************************************************)
EXTENDS Contract, TLC
P == INSTANCE Pgm

Flags == {"help"}
Valued == {"left-image", "right-image", "output-image", "disparity-levels",
           "cleanness", "smoothness", "parallel"}
Options == Flags \cup Valued
Required == {"left-image", "right-image", "output-image"}
\* Supported by a build without any GPU technology, in any letter case.
Missing == <<-1>>

Count(v, o) == Cardinality({i \in 1..Len(v.args) : v.args[i].opt = o})
Given(v, o) == Count(v, o) = 1
TheArg(v, o) == v.args[CHOOSE i \in 1..Len(v.args) : v.args[i].opt = o]

\* The command line makes sense by itself.
Parses(v) ==
    /\ \A i \in 1..Len(v.args) : v.args[i].opt \in Options
    /\ \A i \in 1..Len(v.args) : v.args[i].class # "none"
    /\ \A o \in Options : Count(v, o) <= 1

\* Classes of weights: "pos", "zero" and the refused "neg", "nan", "inf",
\* "neginf", "word". Classes of parallelism: "cpu", "word".
WeightClass(v, o) == IF Given(v, o) THEN TheArg(v, o).class ELSE "pos"
ParallelOk(v) == Given(v, "parallel") => TheArg(v, "parallel").class = "cpu"
LevelsNumeral(v) ==
    IF Given(v, "disparity-levels") THEN TheArg(v, "disparity-levels").val ELSE <<>>
LevelsOk(v, w) ==
    IF Given(v, "disparity-levels")
    THEN /\ P!IsNumeral(LevelsNumeral(v))
         /\ P!IsSmall(P!Canon(LevelsNumeral(v)))
         /\ P!ValueOf(P!Canon(LevelsNumeral(v))) \in 2..w
    ELSE w >= 2
Levels(v, w) ==
    IF Given(v, "disparity-levels") THEN P!ValueOf(P!Canon(LevelsNumeral(v))) ELSE w

ImageOf(text) == IF text = Missing THEN P!NoImage ELSE P!Decode(text)
SmallImage(img) == P!IsSmall(img.w) /\ P!IsSmall(img.h) /\ P!IsSmall(img.max)

ProblemOk(v) ==
    LET l == ImageOf(v.left) r == ImageOf(v.right)
    IN  /\ l # P!NoImage /\ r # P!NoImage
        /\ P!ValidImage(l) /\ P!ValidImage(r)
        /\ l.w = r.w /\ l.h = r.h /\ l.max = r.max
        /\ LevelsOk(v, P!ValueOf(l.w))
        /\ WeightClass(v, "cleanness") \in {"pos", "zero"}
        /\ WeightClass(v, "smoothness") \in {"pos", "zero"}
        /\ ~(WeightClass(v, "cleanness") = "zero" /\ WeightClass(v, "smoothness") = "zero")

Outcome(v) ==
    IF v.args = <<>> THEN "usage"
    ELSE IF ~Parses(v) THEN "fail"
    ELSE IF Given(v, "help") THEN "help"
    ELSE IF (\A o \in Required : Given(v, o)) /\ ParallelOk(v) /\ ProblemOk(v) /\ v.writable = 1
    THEN "map" ELSE "fail"

\* ---- the map --------------------------------------------------------------
\* Weights as integers in units of 1/den.
MkProblem(v, c, s) ==
    LET l == ImageOf(v.left) r == ImageOf(v.right)
        w == P!ValueOf(l.w)
        g == [w |-> w, h |-> P!ValueOf(l.h), D |-> Levels(v, w)]
    IN  [g |-> g, c |-> c, s |-> s, phi |-> ZeroPhi(g),
         L |-> [i \in 1..Len(l.data) |-> P!ValueOf(l.data[i])],
         R |-> [i \in 1..Len(r.data) |-> P!ValueOf(r.data[i])]]

\* Are these disparities a labeling of existing nodes and edges?
IsLabelingOf(g, lab) ==
    /\ \A p \in Pixels(g) : lab[p] \in Disparities(g, p)
    /\ \A pk \in Pairs(g) :
        EdgeExists(g, pk[1], pk[2], lab[pk[1]], lab[NeighborOf(g, pk[1], pk[2])])
WorstExcess(g, np, ep, lp, ln, lab) ==
    NMax({NodeExcess(np, lp, p, lab[p]) : p \in Pixels(g)}
         \cup {EdgeExcess(ep, ln, pk[1], pk[2], lab[pk[1]], lab[NeighborOf(g, pk[1], pk[2])])
               : pk \in Pairs(g)})
IsOptimal(g, np, ep, lp, ln, lab) ==
    LET t == WorstExcess(g, np, ep, lp, ln, lab)
        less == TLCEval(Below(TLCEval(Excesses(g, np, ep, lp, ln)), t))
    IN  less = {} \/ ~LabelingAt(g, np, ep, lp, ln, NMax(less))

MapTextBroken(m, out) ==
    LET img == P!Decode(out)
        g == m.g
    IN  IF img = P!NoImage THEN {"map-is-pgm"}
        ELSE IF ~SmallImage(img) \/ P!ValueOf(img.w) # g.w \/ P!ValueOf(img.h) # g.h
                \/ \E i \in 1..Len(img.data) : ~P!IsSmall(img.data[i])
        THEN {"map-size"}
        ELSE LET lab == [p \in Pixels(g) |-> P!ValueOf(img.data[p])]
                 np == TLCEval(NodeTable(m)) ep == TLCEval(EdgeTable(m))
                 lp == TLCEval(LowestPixels(g, np)) ln == TLCEval(LowestNeighborhoods(g, ep))
             IN  Clause("map-valid", P!ValidImage(img))
                 \cup (IF IsLabelingOf(g, lab)
                       THEN Clause("map-optimal", IsOptimal(g, np, ep, lp, ln, lab))
                       ELSE {"map-labels"})
                 \cup Clause("map-equal-images", m.L = m.R => \A p \in Pixels(g) : lab[p] = 0)

\* ---- contract ----------------------------------------------------------------
\* r: [exit, signal, out (length of stdout), err (length of stderr),
\*     before, after (texts at the output path or Missing)]
Died(r) == r.signal # 0
FailureBroken(v, r) ==
    Clause("fail-status", r.exit # 0 /\ ~Died(r))
    \cup Clause("fail-diagnostic", r.err > 0)
    \cup Clause("fail-output-untouched", v.writable # 2 => r.after = r.before)
RunBroken(v, c, s, r) ==
    LET o == Outcome(v)
    IN  CASE o = "help" -> Clause("help-status", r.exit = 0 /\ ~Died(r))
                           \cup Clause("help-printed", r.mentions = 1)
                           \cup Clause("help-output-untouched", r.after = r.before)
          [] o = "usage" -> Clause("usage-printed", r.mentions = 1 /\ ~Died(r))
                            \cup Clause("usage-output-untouched", r.after = r.before)
          [] o = "fail" -> FailureBroken(v, r)
          [] o = "map" -> Clause("map-status", r.exit = 0 /\ ~Died(r))
                          \cup (IF r.exit = 0 THEN MapTextBroken(MkProblem(v, c, s), r.after) ELSE {})
=============================================================================
