------------------------------ MODULE PgmTrace ------------------------------
(***************************************************************************)
(* Validation of recorded reads and writes of plain PGM (see Trace.tla for *)
(* the scheme). The state is the image held by the reader object.          *)
(***************************************************************************)
EXTENDS Pgm, TLC, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Events)
VARIABLES i, bad, held
vars == <<i, bad, held>>
Img(e) == [w |-> e.w, h |-> e.h, max |-> e.max, data |-> e.data]
Broken(e) ==
    CASE e.op = "begin" -> {}
      [] e.op = "read"  -> ReadBroken(e.text, e.usable = 1, held,
            [fail |-> e.fail = 1, threw |-> e.threw = 1, held |-> Img(e), peak |-> e.peak])
      [] e.op = "write" -> WriteBroken(Img(e), e.text, e.fail = 1)
      [] e.op = "writenone" -> Clause("write-nothing", e.text = <<>>)
      [] e.op = "crash" -> {"crash"}
      [] OTHER -> {"unknown-event"}
After(e) ==
    CASE e.op = "begin" -> NoImage
      [] e.op = "read"  -> Img(e)
      [] OTHER -> held
RECURSIVE NextBegin(_)
NextBegin(j) == IF j > N \/ Events[j].op = "begin" THEN j ELSE NextBegin(j + 1)
Init == i = 1 /\ bad = {} /\ held = NoImage
Accept(e, B) == B = {} /\ held' = After(e) /\ i' = i + 1 /\ UNCHANGED bad
Reject(e, B) ==
    /\ B # {}
    /\ PrintT("REJECT " \o ToString(e.sid) \o " " \o ToString(i) \o " " \o e.op \o " " \o ToString(B))
    /\ bad' = bad \cup {e.sid}
    /\ i' = NextBegin(i + 1)
    /\ UNCHANGED held
Finish ==
    /\ i = N + 1
    /\ PrintT("DONE " \o ToString(N) \o " " \o ToString(Cardinality(bad)))
    /\ i' = N + 2
    /\ UNCHANGED <<bad, held>>
Next ==
    \/ i <= N /\ LET e == Events[i] B == Broken(e) IN Accept(e, B) \/ Reject(e, B)
    \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
