------------------------------ MODULE CspConc ------------------------------
(***************************************************************************)
(* Solving by several threads at the level of single memory accesses.      *)
(*                                                                         *)
(* Availability is kept in words shared by several nodes, as a bit vector  *)
(* does it: a node is made unavailable by reading its word and writing it  *)
(* back without the node, so removals by different threads may get lost.   *)
(* In every round thread t processes the rows t, t + T, ... and reports    *)
(* whether it changed anything; another round follows while some thread    *)
(* did. A thread that meets a pixel without nodes makes all nodes          *)
(* unavailable, word by word and node by node, and ends its round.         *)
(*                                                                         *)
(* Variable c holds the problem (g, nb, E as in Csp) and wd, the word of   *)
(* every node. Nodes are pairs <<p, d>>.                                   *)
(***************************************************************************)
EXTENDS Csp, TLC

CONSTANTS Threads,    \* number of threads
          Shapes,     \* geometries
          Missing,    \* edges that exist but exceed the threshold: at most
          MissingNodes, \* nodes that exceed the threshold: at most
          Words       \* "one", "row" or "each": nodes which share a word

VARIABLES c, av0,     \* the problem and the initial availability
          av,         \* set of available nodes (memory)
          th,         \* states of the threads
          round, verdict
vars == <<c, av0, av, th, round, verdict>>

T == 0..(Threads - 1)
Min(S) == CHOOSE a \in S : \A b \in S : a <= b

\* ---- problems -----------------------------------------------------------
NodesOf(g) == {n \in Pixels(g) \X (0..(g.D - 1)) : n[2] \in Disparities(g, n[1])}
\* Undirected edges, given from their left or upper node.
EdgesOf(g) ==
    {e \in Pixels(g) \X {0, 2} \X (0..(g.D - 1)) \X (0..(g.D - 1)) : EdgeExists(g, e[1], e[2], e[3], e[4])}
SmallSubsets(S, k) == {X \in SUBSET S : Cardinality(X) <= k}
RelationWithout(g, gone) ==
    [p \in Pixels(g) |-> [k \in 1..4 |-> [d \in 1..g.D |->
        {e \in 0..(g.D - 1) :
            /\ EdgeExists(g, p, k - 1, d - 1, e)
            /\ (IF k \in {1, 3} THEN <<p, k - 1, d - 1, e>>
                ELSE <<NeighborOf(g, p, k - 1), k - 2, e, d - 1>>) \notin gone}]]]
WordOf(g, w, n) == CASE w = "one" -> 0 [] w = "row" -> YOf(g, n[1]) [] w = "each" -> n
Problem(g, gone, w) ==
    [g |-> g, nb |-> NeighborTable(g), E |-> RelationWithout(g, gone),
     wd |-> [n \in Pixels(g) \X (0..(g.D - 1)) |-> WordOf(g, w, n)]]
G == c.g
AllNodes == {n \in Pixels(G) \X (0..(G.D - 1)) : TRUE}
WordNodes(n) == {k \in AllNodes : c.wd[k] = c.wd[n]}
AsSet(a) == {n \in AllNodes : n[2] \in a[n[1]]}
AsFunction(S) == [p \in Pixels(G) |-> {d \in 0..(G.D - 1) : <<p, d>> \in S}]

\* ---- programme of a thread ------------------------------------------------
\* pc: own     read the availability of node <<x, y, d>>
\*     scan    look for an available edge to neighbor k, disparity e
\*     load, store     remove the node
\*     left    read the nodes of the pixel to see whether one is left
\*     any     look for any node left (idx: position)
\*     zread, zload, zstore   make all nodes unavailable that still are not
\*     done
Idle == [pc |-> "done", x |-> 0, y |-> 0, d |-> 0, k |-> 0, e |-> 0, idx |-> 0, word |-> {},
         changed |-> FALSE, found |-> FALSE, report |-> FALSE]
Begin(t) == IF t < G.h THEN [Idle EXCEPT !.pc = "own", !.y = t] ELSE Idle

P(s) == PixelOf(G, s.x, s.y)
Node(s) == <<P(s), s.d>>
Exists(p, d) == d \in Disparities(G, p)

\* The next neighbor to look at from number k on; 4 if there is none.
NextNeighbor(p, k) ==
    LET left == {j \in k..3 : c.nb[p][j + 1] # 0} IN IF left = {} THEN 4 ELSE Min(left)
\* The next disparity e' >= e of neighbor k that the threshold allows; D if none.
NextEdge(p, d, k, e) ==
    LET left == {j \in e..(G.D - 1) : j \in c.E[p][k + 1][d + 1]} IN IF left = {} THEN G.D ELSE Min(left)

AddressOrder(i) == <<1 + ((i - 1) \div G.D), (i - 1) % G.D>>
Last == Cardinality(Pixels(G)) * G.D

\* After node <<x, y, d>> was dealt with.
NextNode(s) ==
    IF s.d + 1 \in Disparities(G, P(s)) THEN [s EXCEPT !.pc = "own", !.d = @ + 1]
    ELSE [s EXCEPT !.pc = "left", !.d = 0, !.found = FALSE]
NextPixel(s) ==
    IF s.x + 1 < G.w THEN [s EXCEPT !.pc = "own", !.x = @ + 1, !.d = 0]
    ELSE IF s.y + Threads < G.h THEN [s EXCEPT !.pc = "own", !.x = 0, !.y = @ + Threads, !.d = 0]
    ELSE [s EXCEPT !.pc = "done", !.report = s.changed]

\* Looking for support from neighbor k on: nothing to look at anymore?
Look(s, k) ==
    LET j == NextNeighbor(P(s), k)
    IN  IF j = 4 THEN NextNode(s)
        ELSE LET e == NextEdge(P(s), s.d, j, 0)
             IN  IF e = G.D THEN [s EXCEPT !.pc = "load"]
                 ELSE [s EXCEPT !.pc = "scan", !.k = j, !.e = e]

Own(t, s) ==
    /\ s.pc = "own"
    /\ th' = [th EXCEPT ![t] = IF Node(s) \in av THEN Look(s, 0) ELSE NextNode(s)]
    /\ UNCHANGED av
Scan(t, s) ==
    /\ s.pc = "scan"
    /\ th' = [th EXCEPT ![t] =
            IF <<c.nb[P(s)][s.k + 1], s.e>> \in av THEN Look(s, s.k + 1)
            ELSE LET e == NextEdge(P(s), s.d, s.k, s.e + 1)
                 IN  IF e = G.D THEN [s EXCEPT !.pc = "load"] ELSE [s EXCEPT !.e = e]]
    /\ UNCHANGED av
Load(t, s) ==
    /\ s.pc = "load"
    /\ th' = [th EXCEPT ![t] = [s EXCEPT !.pc = "store", !.word = TLCEval(av \cap WordNodes(Node(s)))]]
    /\ UNCHANGED av
Store(t, s) ==
    /\ s.pc = "store"
    /\ av' = TLCEval((av \ WordNodes(Node(s))) \cup (s.word \ {Node(s)}))
    /\ th' = [th EXCEPT ![t] = NextNode([s EXCEPT !.changed = TRUE, !.word = {}])]
Left(t, s) ==
    /\ s.pc = "left"
    /\ LET found == s.found \/ Node(s) \in av
           more == s.d + 1 \in Disparities(G, P(s))
       IN  th' = [th EXCEPT ![t] =
                IF more THEN [s EXCEPT !.d = @ + 1, !.found = found]
                ELSE IF found THEN NextPixel([s EXCEPT !.found = FALSE])
                ELSE [s EXCEPT !.pc = "any", !.idx = 1, !.d = 0]]
    /\ UNCHANGED av
SomeLeft(t, s) ==
    /\ s.pc = "any"
    /\ th' = [th EXCEPT ![t] =
            IF AddressOrder(s.idx) \in av THEN [s EXCEPT !.pc = "zread", !.idx = 1]
            ELSE IF s.idx < Last THEN [s EXCEPT !.idx = @ + 1]
            ELSE [s EXCEPT !.pc = "done", !.report = FALSE]]
    /\ UNCHANGED av
\* Writing an unavailable node would take no node away for good, but bring
\* back those of its word that were removed since the word was read.
ZNext(s) ==
    IF s.idx < Last THEN [s EXCEPT !.pc = "zread", !.idx = @ + 1, !.word = {}]
    ELSE [s EXCEPT !.pc = "done", !.report = TRUE, !.word = {}]
ZRead(t, s) ==
    /\ s.pc = "zread"
    /\ th' = [th EXCEPT ![t] = IF AddressOrder(s.idx) \in av THEN [s EXCEPT !.pc = "zload"] ELSE ZNext(s)]
    /\ UNCHANGED av
ZLoad(t, s) ==
    /\ s.pc = "zload"
    /\ th' = [th EXCEPT ![t] = [s EXCEPT !.pc = "zstore", !.word = TLCEval(av \cap WordNodes(AddressOrder(s.idx)))]]
    /\ UNCHANGED av
ZStore(t, s) ==
    /\ s.pc = "zstore"
    /\ LET n == AddressOrder(s.idx)
       IN  av' = TLCEval((av \ WordNodes(n)) \cup (s.word \ {n}))
    /\ th' = [th EXCEPT ![t] = ZNext(s)]

Thread(t) ==
    /\ verdict = "none"
    /\ LET s == th[t]
       IN  \/ Own(t, s) \/ Scan(t, s) \/ Load(t, s) \/ Store(t, s) \/ Left(t, s) \/ SomeLeft(t, s)
           \/ ZRead(t, s) \/ ZLoad(t, s) \/ ZStore(t, s)
    /\ UNCHANGED <<c, av0, round, verdict>>

AllDone == \A t \in T : th[t].pc = "done"
\* All threads met at the end of the round.
Join ==
    /\ verdict = "none" /\ AllDone
    /\ IF \E t \in T : th[t].report
       THEN /\ th' = [t \in T |-> Begin(t)]
            /\ round' = round + 1
            /\ UNCHANGED verdict
       ELSE /\ verdict' = IF av = {} THEN "nothing" ELSE "some"
            /\ UNCHANGED <<th, round>>
    /\ UNCHANGED <<c, av0, av>>

Init ==
    /\ \E g \in Shapes : \E gone \in SmallSubsets(EdgesOf(g), Missing) : \E w \in Words :
       \E off \in SmallSubsets(NodesOf(g), MissingNodes) :
        /\ c = Problem(g, gone, w)
        /\ av0 = [p \in Pixels(g) |-> {d \in Disparities(g, p) : <<p, d>> \notin off}]
    /\ av = AsSet(av0)
    /\ th = [t \in T |-> Begin(t)]
    /\ round = 1 /\ verdict = "none"

Next == Join \/ \E t \in T : Thread(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties ---------------------------------------------------------
Target == AsSet(Largest(c, av0))
\* Nothing of the result ever gets lost and nothing is invented.
NeverTooMuch == Target \subseteq av /\ av \subseteq AsSet(av0)
\* The result does not depend on threads and interleaving.
SameResult == verdict # "none" => av = Target /\ (verdict = "some" <=> Target # {})
\* Every round but the last one removes something for good: finitely many.
RoundsBounded == round <= 1 + Cardinality(AsSet(av0))
\* Within a round every thread goes forward only, so a round ends; together
\* with RoundsBounded every schedule terminates (checked as liveness too).
Terminates == <>(verdict # "none")
=============================================================================
