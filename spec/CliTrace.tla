------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Validation of recorded runs of the command. A session is a set of runs; *)
(* runs with the same number "same" solve the same problem by different    *)
(* means and have to produce the same output.                              *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Events)
VARIABLES i, bad, done      \* done: outputs of the session so far
vars == <<i, bad, done>>
Inv(e) == [args |-> e.args, left |-> e.left, right |-> e.right, writable |-> e.writable]
Broken(e) ==
    CASE e.op = "begin" -> {}
      [] e.op = "run" ->
            (IF e.again = 1 THEN {} ELSE RunBroken(Inv(e), e.c, e.s, e))
            \cup Clause("same-output", \A o \in done : o[1] = e.same => o[2] = <<e.exit, e.after>>)
      [] OTHER -> {"unknown-event"}
RECURSIVE NextBegin(_)
NextBegin(j) == IF j > N \/ Events[j].op = "begin" THEN j ELSE NextBegin(j + 1)
Init == i = 1 /\ bad = {} /\ done = {}
Accept(e, B) ==
    /\ B = {} /\ i' = i + 1 /\ UNCHANGED bad
    /\ done' = IF e.op = "begin" THEN {} ELSE done \cup {<<e.same, <<e.exit, e.after>>>>}
Reject(e, B) ==
    /\ B # {}
    /\ PrintT("REJECT " \o ToString(e.sid) \o " " \o ToString(i) \o " " \o e.op \o " " \o ToString(B))
    /\ bad' = bad \cup {e.sid}
    /\ i' = NextBegin(i + 1)
    /\ UNCHANGED done
Finish ==
    /\ i = N + 1
    /\ PrintT("DONE " \o ToString(N) \o " " \o ToString(Cardinality(bad)))
    /\ i' = N + 2
    /\ UNCHANGED <<bad, done>>
Next ==
    \/ i <= N /\ LET e == Events[i] B == Broken(e) IN Accept(e, B) \/ Reject(e, B)
    \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
