-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded executions of the library.                       *)
(* The file named by the environment variable TRACE holds one event per    *)
(* line; the events of a session follow each other, sessions begin with    *)
(* an event "begin". Every event is one call of the library with its       *)
(* arguments and its observed result; it is accepted iff the contract of   *)
(* the operation (Contract.tla, Penalty.tla, Grid.tla) holds. Events with  *)
(* chk = 0 only provide the observed lower layer ("given") so that an      *)
(* upper layer is judged relative to it.                                   *)
(* A rejected session is reported and skipped, so the rest is checked too. *)
(***************************************************************************)
EXTENDS Contract, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Events)

VARIABLES i,        \* number of the next event
          bad,      \* sessions rejected so far
          s         \* abstract state of the current session

vars == <<i, bad, s>>

Empty == [dead |-> FALSE]

\* ---- conversion of logged values ----------------------------------------
AvOf(g, a) == [p \in Pixels(g) |-> {d \in 0..(g.D - 1) : a[p][d + 1] = 1}]
RelOf(g, r) == [p \in Pixels(g) |-> [k \in 1..4 |-> [x \in 1..g.D |-> Elements(r[p][k][x])]]]
IsTrue(n) == n = 1

\* ---- table checks --------------------------------------------------------
ExistBroken(e) ==       \* e: w, h, D, node[], nbh[], edge[] over a probed box
    LET g == [w |-> e.w, h |-> e.h, D |-> e.D]
    IN  Clause("node-exists", \A r \in Elements(e.nodes) :
            IsTrue(r[4]) <=> NodeExists(g, r[1], r[2], r[3]))
        \cup Clause("neighborhood-exists", \A r \in Elements(e.nbs) :
            IsTrue(r[5]) <=>
                /\ r[1] \in 0..(g.w - 1) /\ r[2] \in 0..(g.h - 1) /\ r[3] \in 0..(g.w - 1) /\ r[4] \in 0..(g.h - 1)
                /\ NeighborNumber(r[1], r[2], r[3], r[4]) # 4)
        \cup Clause("neighborhood-exists-by-number", \A r \in Elements(e.nbf) :
            IsTrue(r[4]) <=>
                /\ r[1] < g.w /\ r[2] < g.h /\ r[3] < 4
                /\ NeighborExists(g, PixelOf(g, r[1], r[2]), r[3]))
        \cup Clause("edge-exists", \A r \in Elements(e.edges) :
            LET n == NeighborNumber(r[1], r[2], r[4], r[5])
            IN  IsTrue(r[7]) <=>
                /\ NodeExists(g, r[1], r[2], r[3])
                /\ NodeExists(g, r[4], r[5], r[6])
                /\ n # 4
                /\ EdgeExists(g, PixelOf(g, r[1], r[2]), n, r[3], r[6]))

\* Addresses: sequences of numbers that have to be pairwise different and
\* below the size of the storage; variants have to agree.
Injective(q) == Cardinality(Elements(q)) = Len(q)
InRange(q, n) == \A j \in 1..Len(q) : q[j] >= 0 /\ q[j] < n
\* The same for problems too large for lists: how many different addresses
\* there are, the least and the greatest one, and how many look-ups of other variants disagree.
Covers(r, n) == r[1] = n /\ r[2] >= 0 /\ r[3] < n
BulkBroken(e) ==
    LET np_ == e.w * e.h
    IN  Clause("pixel-address", Covers(e.pix, np_))
        \cup Clause("node-address", Covers(e.node, np_ * e.D))
        \cup Clause("neighborhood-address", Covers(e.nbh, 4 * np_))
        \cup Clause("neighborhood-address-variants", e.nbh[4] = 0)
        \cup Clause("reparametrization-address", Covers(e.rep, 4 * np_ * e.D))
        \cup Clause("reparametrization-address-variants", e.rep[4] = 0)
        \cup Clause("storage-size", e.npix = np_ /\ e.nrep = 4 * np_ * e.D)
IndexBroken(e) ==
    LET np_ == e.w * e.h
    IN  Clause("pixel-address", Len(e.pix) = np_ /\ Injective(e.pix) /\ InRange(e.pix, e.npix))
        \cup Clause("node-address", Injective(e.node) /\ InRange(e.node, e.nnode))
        \cup Clause("neighborhood-address", Injective(e.nbh) /\ InRange(e.nbh, e.nnbh))
        \cup Clause("neighborhood-address-variants", e.nbh2 = e.nbh_ex /\ e.nbh3 = e.nbh_ex)
        \cup Clause("reparametrization-address", Injective(e.rep) /\ InRange(e.rep, e.nrep))
        \cup Clause("reparametrization-address-variants", e.rep2 = e.rep_ex /\ e.rep3 = e.rep_ex)
        \cup Clause("pixel-value", e.pv = e.data)
        \cup Clause("storage-size", e.npix = np_ /\ e.nnode = np_ * e.D
                /\ e.nnbh = 4 * np_ /\ e.nrep = 4 * np_ * e.D)
NumberingBroken(e) ==
    Clause("neighbor-number", \A r \in Elements(e.num) :
        r[5] = NeighborNumber(r[1], r[2], r[3], r[4]))
    \cup Clause("neighbor-by-number", \A r \in Elements(e.by) :
        /\ r[4] = r[1] + <<1, -1, 0, 0>>[r[3] + 1]
        /\ r[5] = r[2] + <<0, 0, 1, -1>>[r[3] + 1])

\* One write through an address of the given kind, with the set of
\* positions (in enumeration order) whose value differs afterwards.
WriteBroken(e) == Clause("write-" \o e.kind, e.changed = <<e.target>>)

FormulaBroken(e) ==
    LET g == s.g
        m == [g |-> g, L |-> e.L, R |-> e.R, c |-> e.c, s |-> e.s, phi |-> e.phi]
    IN  Clause("node-penalty", \A p \in Pixels(g) : \A d \in Disparities(g, p) :
            e.np[p][d + 1] = NodePenalty(m, p, d))
        \cup Clause("edge-penalty", \A p \in Pixels(g) : \A k \in Neighbors :
            \A de \in EdgePairs(g, p, k) :
              e.ep[p][k + 1][de[1] + 1][de[2] + 1] = EdgePenalty(m, p, k, de[1], de[2]))
        \cup Clause("edge-penalty-symmetric", \A p \in Pixels(g) : \A k \in Neighbors :
            \A de \in EdgePairs(g, p, k) :
              e.ep[p][k + 1][de[1] + 1][de[2] + 1]
                = e.ep[NeighborOf(g, p, k)][Opposite(k) + 1][de[2] + 1][de[1] + 1])

\* Some nodes and edges of a problem too large for whole tables.
SpotsBroken(e) ==
    LET g == s.g
        ph == Elements(e.phi)
        f(p, k, d) == LET here == {r \in ph : r[1] = p /\ r[2] = k /\ r[3] = d}
                      IN  IF here = {} THEN NZero ELSE (CHOOSE r \in here : TRUE)[4]
    IN  Clause("node-penalty", \A j \in 1..Len(e.nodes) :
            LET r == e.nodes[j] IN r[3] = NodeFormula(e.c, e.L, e.R, f, r[1], r[2]))
        \cup Clause("edge-penalty", \A j \in 1..Len(e.edges) :
            LET r == e.edges[j] IN r[5] = EdgeFormula(g, e.s, f, r[1], r[2], r[3], r[4]))

\* Energy of a labeling before and after reparametrization (observed tables).
EnergyBroken(e) ==
    Clause("energy-invariant", \A lab \in Elements(e.labs) :
        Energy(s.g, e.np, e.ep, lab) = Energy(s.g, s.np, s.ep, lab))
BoundBroken(e) ==
    Clause("lower-bound", \A lab \in Elements(e.labs) :
        NLeq(LowerBound(s.g, s.lp, s.ln), Energy(s.g, s.np, s.ep, lab)))

ConstructBroken(e) ==
    IF WellPosed(e)
    THEN Clause("construct-accepts", e.ok = 1)
         \cup Clause("construct-holds", e.ok = 1 => e.holds = 1)
    ELSE Clause("construct-refuses", e.ok = 0 /\ e.exc = "invalid_argument")

ValidBroken(e) ==
    Clause("image-valid", IsTrue(e.ret) <=>
        /\ e.w >= 1 /\ e.h >= 1 /\ e.m >= 1 /\ Len(e.data) = e.w * e.h
        /\ \A j \in 1..Len(e.data) : e.data[j] <= e.m)

\* ---- one event -----------------------------------------------------------
H(e) == s.cg[e.h]
Ret(e) == IsTrue(e.ret)
Av2(e) == AvOf(s.g, e.av)
WithAv(e) == [s EXCEPT !.cg[e.h].av = Av2(e)]
Chk(e, B) == IF e.chk = 1 THEN B ELSE {}

\* A graph labeled on a device: what the processor makes of it, or, where
\* that is wrong itself, what is right.
DeviceBroken(e) ==
    LET ret == e.result.ret = 1
    IN  IF e.result.ret = e.base.ret /\ (ret => e.result.av = e.base.av) THEN {}
        ELSE Clause("device-result", e.result.ret \in {0, 1})
             \cup LabelBroken(H(e).c, s.np, H(e).av, FALSE, ret, AvOf(s.g, e.result.av))

\* violated clauses
Broken(e) ==
    CASE e.op = "begin"   -> {}
      [] e.op = "exist"   -> ExistBroken(e)
      [] e.op = "index"   -> IndexBroken(e)
      [] e.op = "bulk"    -> BulkBroken(e)
      [] e.op = "number"  -> NumberingBroken(e)
      [] e.op = "write"   -> WriteBroken(e)
      [] e.op = "construct" -> ConstructBroken(e)
      [] e.op = "valid"   -> ValidBroken(e)
      [] e.op = "formula" -> FormulaBroken(e)
      [] e.op = "spots"   -> SpotsBroken(e)
      [] e.op = "pen"     -> {}
      [] e.op = "energy"  -> EnergyBroken(e)
      [] e.op = "bound"   -> BoundBroken(e)
      [] e.op = "low"     -> Chk(e, LowestBroken(s.g, s.np, s.ep, e.lp, e.ln)
                                 \cup Clause("lowest-variants", e.variants = 1))
      [] e.op = "relow"   -> Clause("lowest-snapshot", e.lp = s.lp /\ e.ln = s.ln /\ e.variants = 1)
      [] e.op = "copy"    -> Clause("copy", Av2(e) = s.cg[e.from].av)
      [] e.op = "cands"   -> CandidatesBroken(Excesses(s.g, s.np, s.ep, s.lp, s.ln), e.list)
      [] e.op = "pixc"    -> CandidatesBroken(PixelExcesses(s.g, s.np, s.lp, e.p), e.list)
      [] e.op = "edgec"   -> CandidatesBroken(EdgeExcesses(s.g, s.ep, s.ln, e.p, e.k), e.list)
      [] e.op = "thr"     -> Chk(e, ThresholdBroken(s.g, s.np, s.ep, s.lp, s.ln, e.t, e.exact = 1))
      [] e.op = "thrl"    -> ThresholdAmongBroken(Elements(e.list), s.g, s.np, s.ep, s.lp, s.ln, e.t, FALSE)
      [] e.op = "cg"      -> Chk(e, NewGraphBroken(s.g, s.np, s.lp, e.t, Av2(e))
                                 \cup RelationBroken(s.g, s.ep, s.ln, e.t, RelOf(s.g, e.rel)))
      [] e.op = "cgl"     -> {}
      [] e.op = "av"      -> Chk(e, Clause("availability-stable", Av2(e) = H(e).av))
      [] e.op = "edges"   -> EdgesBroken(H(e).c, H(e).av, RelOf(s.g, e.rel))
      [] e.op = "set"     -> Chk(e, SetNodeBroken(H(e).av, e.p, e.d, IsTrue(e.v), Av2(e)))
      [] e.op = "should"  -> ShouldRemoveBroken(H(e).c, H(e).av, AvOf(s.g, e.res))
                             \cup Clause("should-remove-pure", Av2(e) = H(e).av)
      [] e.op = "pp"      -> ProcessPixelBroken(H(e).c, H(e).av, e.p, Ret(e), Av2(e))
      [] e.op = "iter"    -> PassBroken(H(e).c, H(e).av, e.jobs, e.job, Ret(e), Av2(e))
      [] e.op = "left"    -> Clause("nodes-left", Ret(e) <=> ~IsEmpty(s.g, H(e).av))
      [] e.op = "clear"   -> Clause("clear", IsEmpty(s.g, Av2(e)))
      [] e.op = "solve"   -> Chk(e, SolveBroken(H(e).c, H(e).av, Ret(e), Av2(e)))
      [] e.op = "choose"  -> ChooseBroken(s.g, s.np, H(e).av, e.p, Ret(e), Av2(e))
      [] e.op = "label"   -> Chk(e, LabelBroken(H(e).c, s.np, H(e).av, e.exact = 1, Ret(e), Av2(e)))
      [] e.op = "map"     -> MapBroken(s.g, H(e).av,
                               [e EXCEPT !.ok = IsTrue(@), !.valid = IsTrue(@)])
                             \cup Clause("map-pure", Av2(e) = H(e).av)
      [] e.op = "dump"    -> Clause("penalties-unchanged", e.np = s.np /\ e.ep = s.ep)
                             \cup Clause("images-unchanged", e.images = 1)
                             \cup Clause("lowest-unchanged", e.lp = s.lp /\ e.ln = s.ln)
                             \cup Clause("graphs-unchanged", \A h \in 1..Len(e.avs) :
                                    AvOf(s.g, e.avs[h]) = s.cg[h].av)
      [] e.op = "conc"    -> Clause("same-as-sequential", e.result.ret = e.base.ret /\ e.result.t = e.base.t
                                    /\ e.result.av = e.base.av)
                             \cup Clause("round-goes-forward", e.result.stalled = 0)
      [] e.op = "device"  -> DeviceBroken(e)
      [] e.op = "crash"   -> {"crash"}
      [] OTHER            -> {"unknown-event"}

\* abstract state after an accepted event
After(e) ==
    CASE e.op = "begin"   -> [sid |-> e.sid, g |-> [w |-> e.w, h |-> e.h, D |-> e.D],
                              np |-> <<>>, ep |-> <<>>, lp |-> <<>>, ln |-> <<>>, cg |-> <<>>]
      [] e.op \in {"pen", "formula", "energy"} -> [s EXCEPT !.np = e.np, !.ep = e.ep]
      [] e.op = "low"     -> [s EXCEPT !.lp = e.lp, !.ln = e.ln]
      [] e.op = "cg"      ->
            [s EXCEPT !.cg =
                LET r == [t |-> e.t, c |-> MkCsp(s.g, RelOf(s.g, e.rel)), av |-> Av2(e)]
                IN  IF e.h <= Len(@) THEN [@ EXCEPT ![e.h] = r] ELSE Append(@, r)]
      [] e.op = "cgl"     ->
            [s EXCEPT !.cg =
                LET r == [t |-> e.t, c |-> <<>>, av |-> Av2(e)]
                IN  IF e.h <= Len(@) THEN [@ EXCEPT ![e.h] = r] ELSE Append(@, r)]
      [] e.op = "copy"    ->
            [s EXCEPT !.cg = IF e.h <= Len(@) THEN [@ EXCEPT ![e.h] = s.cg[e.from]]
                             ELSE Append(@, s.cg[e.from])]
      [] e.op \in {"set", "pp", "iter", "solve", "choose", "label", "clear", "av"} -> WithAv(e)
      [] OTHER            -> s

RECURSIVE NextBegin(_)
NextBegin(j) == IF j > N \/ Events[j].op = "begin" THEN j ELSE NextBegin(j + 1)

Init == i = 1 /\ bad = {} /\ s = Empty

Accept(e, B) == B = {} /\ s' = After(e) /\ i' = i + 1 /\ UNCHANGED bad
Reject(e, B) ==
    /\ B # {}
    /\ PrintT("REJECT " \o ToString(e.sid) \o " " \o ToString(i) \o " " \o e.op
              \o " " \o ToString(B))
    /\ bad' = bad \cup {e.sid}
    /\ i' = NextBegin(i + 1)
    /\ UNCHANGED s

\* The whole file was consumed: printed once, looked for by the runner.
Finish ==
    /\ i = N + 1
    /\ PrintT("DONE " \o ToString(N) \o " " \o ToString(Cardinality(bad)))
    /\ i' = N + 2
    /\ UNCHANGED <<bad, s>>

Next ==
    \/ /\ i <= N
       /\ LET e == Events[i] B == Broken(e) IN Accept(e, B) \/ Reject(e, B)
    \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
