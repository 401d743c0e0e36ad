-------------------------------- MODULE Gpu --------------------------------
(***************************************************************************)
(* Labeling on a device: the host chooses the best node of one pixel after *)
(* another and launches a kernel with a work item per pixel; an item       *)
(* removes the nodes of its pixel without support and tells whether it did.*)
(* The host launches it again until no item of a launch did. If nothing is *)
(* left of the pixel, it restores the nodes and goes on without the best   *)
(* one.                                                                    *)
(*                                                                         *)
(* Every step of an item is one access to the memory shared by all items.  *)
(* Items of a launch start and go on in every possible order, so the model *)
(* covers all sizes of work groups: items never wait for each other.       *)
(*                                                                         *)
(* Variable c holds the problem as in Csp, and np, the penalties of nodes. *)
(***************************************************************************)
EXTENDS Csp

CONSTANTS Shapes,       \* geometries
          Missing,      \* edges that exist but exceed the threshold: at most
          MissingNodes  \* nodes that exceed the threshold: at most

VARIABLES c, av0,   \* the problem and the initial availability
          av,       \* availability (memory of the device)
          told,     \* flag set by items which removed something (memory of the device)
          item,     \* states of the items of the launch
          host      \* state of the host
vars == <<c, av0, av, told, item, host>>

Min(S) == CHOOSE a \in S : \A b \in S : a <= b

\* ---- problems -------------------------------------------------------------
NodesOf(g) == {n \in Pixels(g) \X (0..(g.D - 1)) : n[2] \in Disparities(g, n[1])}
EdgesOf(g) ==
    {e \in Pixels(g) \X {0, 2} \X (0..(g.D - 1)) \X (0..(g.D - 1)) : EdgeExists(g, e[1], e[2], e[3], e[4])}
SmallSubsets(S, k) == {X \in SUBSET S : Cardinality(X) <= k}
RelationWithout(g, gone) ==
    [p \in Pixels(g) |-> [k \in 1..4 |-> [d \in 1..g.D |->
        {e \in 0..(g.D - 1) :
            /\ EdgeExists(g, p, k - 1, d - 1, e)
            /\ (IF k \in {1, 3} THEN <<p, k - 1, d - 1, e>>
                ELSE <<NeighborOf(g, p, k - 1), k - 2, e, d - 1>>) \notin gone}]]]
\* Each pixel prefers small or large disparities.
Costs(g, up) == [p \in Pixels(g) |-> [d \in 1..g.D |-> IF p \in up THEN d ELSE g.D - d]]
G == c.g
N == G.w * G.h

\* ---- work items -------------------------------------------------------------
\* pc: own     read the availability of node d of the own pixel
\*     look    read the availability of node e of neighbor k
\*     remove  make node d unavailable
\*     tell    report the change
\*     done
Ready == [pc |-> "own", d |-> 0, k |-> 0, e |-> 0, changed |-> FALSE]

NextNeighbor(p, k) == LET left == {j \in k..3 : c.nb[p][j + 1] # 0} IN IF left = {} THEN 4 ELSE Min(left)
NextEdge(p, d, k, e) ==
    LET left == {j \in e..(G.D - 1) : j \in c.E[p][k + 1][d + 1]} IN IF left = {} THEN G.D ELSE Min(left)
NextNode(p, s) ==
    IF s.d + 1 \in Disparities(G, p) THEN [s EXCEPT !.pc = "own", !.d = @ + 1]
    ELSE [s EXCEPT !.pc = IF s.changed THEN "tell" ELSE "done"]
LookFrom(p, s, k) ==
    LET j == NextNeighbor(p, k)
    IN  IF j = 4 THEN NextNode(p, s)
        ELSE LET e == NextEdge(p, s.d, j, 0)
             IN  IF e = G.D THEN [s EXCEPT !.pc = "remove"]
                 ELSE [s EXCEPT !.pc = "look", !.k = j, !.e = e]

Item(p) ==
    /\ host.pc = "run"
    /\ LET s == item[p]
       IN  \/ /\ s.pc = "own"
              /\ item' = [item EXCEPT ![p] = IF s.d \in av[p] THEN LookFrom(p, s, 0) ELSE NextNode(p, s)]
              /\ UNCHANGED <<av, told>>
           \/ /\ s.pc = "look"
              /\ item' = [item EXCEPT ![p] =
                    IF s.e \in av[c.nb[p][s.k + 1]] THEN LookFrom(p, s, s.k + 1)
                    ELSE LET e == NextEdge(p, s.d, s.k, s.e + 1)
                         IN  IF e = G.D THEN [s EXCEPT !.pc = "remove"] ELSE [s EXCEPT !.e = e]]
              /\ UNCHANGED <<av, told>>
           \/ /\ s.pc = "remove"
              /\ av' = [av EXCEPT ![p] = @ \ {s.d}]
              /\ item' = [item EXCEPT ![p] = NextNode(p, [s EXCEPT !.changed = TRUE])]
              /\ UNCHANGED told
           \/ /\ s.pc = "tell"
              /\ told' = TRUE
              /\ item' = [item EXCEPT ![p].pc = "done"]
              /\ UNCHANGED av
    /\ UNCHANGED <<c, av0, host>>

\* ---- host --------------------------------------------------------------------
\* pc: choose, launch, run (items run until all are done), found, failed
\* i: number of the pixel in the order of processing; best: its chosen node
\* backup: nodes before the choice; without: solving without the best one
\* start: nodes when solving started (for the properties only)
\* launches: of the current solving (for the properties only)
Pixel == OrderedPixel(G, host.i)
Solve(h) == [h EXCEPT !.pc = "launch", !.launches = 0]

Choose ==
    /\ host.pc = "choose"
    /\ IF av[Pixel] = {} THEN host' = [host EXCEPT !.pc = "failed"] /\ UNCHANGED av
       ELSE /\ av' = KeepBest(c.np, av, Pixel)
            /\ host' = [Solve(host) EXCEPT !.backup = av, !.best = Best(c.np, Pixel, av[Pixel]),
                                           !.without = FALSE, !.start = av']
    /\ UNCHANGED <<c, av0, told, item>>
Launch ==
    /\ host.pc = "launch"
    /\ told' = FALSE
    /\ item' = [p \in Pixels(G) |-> Ready]
    /\ host' = [host EXCEPT !.pc = "run", !.launches = @ + 1]
    /\ UNCHANGED <<c, av0, av>>
Solved == host.pc = "run" /\ (\A p \in Pixels(G) : item[p].pc = "done") /\ ~told
Finish ==
    /\ host.pc = "run" /\ \A p \in Pixels(G) : item[p].pc = "done"
    /\ IF told THEN host' = [host EXCEPT !.pc = "launch"] /\ UNCHANGED av
       ELSE IF host.without THEN host' = [host EXCEPT !.pc = "choose"] /\ UNCHANGED av
       ELSE IF av[Pixel] # {}
       THEN /\ host' = IF host.i = N THEN [host EXCEPT !.pc = "found"]
                       ELSE [host EXCEPT !.pc = "choose", !.i = @ + 1]
            /\ UNCHANGED av
       ELSE /\ av' = [host.backup EXCEPT ![Pixel] = @ \ {host.best}]
            /\ host' = [Solve(host) EXCEPT !.without = TRUE, !.start = av']
    /\ UNCHANGED <<c, av0, told, item>>

Init ==
    /\ \E g \in Shapes : \E gone \in SmallSubsets(EdgesOf(g), Missing) : \E up \in SUBSET Pixels(g) :
       \E off \in SmallSubsets(NodesOf(g), MissingNodes) :
        /\ c = [g |-> g, nb |-> NeighborTable(g), E |-> RelationWithout(g, gone), np |-> Costs(g, up)]
        /\ av0 = [p \in Pixels(g) |-> {d \in Disparities(g, p) : <<p, d>> \notin off}]
    /\ av = av0 /\ told = FALSE
    /\ item = [p \in Pixels(c.g) |-> Ready]
    /\ host = [pc |-> "choose", i |-> 1, best |-> 0, backup |-> av0, without |-> FALSE, start |-> av0, launches |-> 0]

Next == Choose \/ Launch \/ Finish \/ \E p \in Pixels(G) : Item(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties ---------------------------------------------------------------
Running == host.pc \in {"launch", "run"}
\* No item removes a node of the result, whatever the others do meanwhile.
NeverTooMuch == Running => Subset(G, Largest(c, host.start), av) /\ Subset(G, av, host.start)
\* When the host stops launching, exactly the largest consistent set is left.
SolvedExactly == Solved => av = Largest(c, host.start)
\* Every launch but the last one removes a node.
RECURSIVE CountNodes(_, _)
CountNodes(a, S) == IF S = {} THEN 0 ELSE LET p == Min(S) IN Cardinality(a[p]) + CountNodes(a, S \ {p})
LaunchesBounded == Running => host.launches <= 1 + CountNodes(host.start, Pixels(G))
\* The labeling is the one the processor finds, for every schedule.
SameLabeling ==
    LET r == FindLabeling(c, c.np, av0, 1)
    IN  /\ host.pc = "found" => r = <<TRUE, av>>
        /\ host.pc = "failed" => ~r[1]
Terminates == <>(host.pc \in {"found", "failed"})
=============================================================================
