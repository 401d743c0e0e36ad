----------------------------- MODULE MCCspSched -----------------------------
(***************************************************************************)
(* CspConc that remembers which thread made each step, to provide          *)
(* schedules: one for every different transition in which a removal gets   *)
(* lost (a word is written back after another thread removed a node of it) *)
(* and one for every different end.                                        *)
(***************************************************************************)
EXTENDS MCCspConc, Json, Sequences

VARIABLE hist
InitS == Init /\ hist = <<>>
NextS == \/ Join /\ UNCHANGED hist
         \/ \E t \in T : Thread(t) /\ hist' = Append(hist, t)
SpecS == InitS /\ [][NextS]_<<vars, hist>>
View == vars

Lost == \E t \in T : th[t].pc \in {"store", "zstore"} /\ th'[t] # th[t] /\ ~(th[t].word \subseteq av)
Emit == (Lost \/ verdict' # "none") =>
    PrintT("EMIT " \o ToJson([
        kind |-> IF Lost THEN "lost" ELSE "end", threads |-> Threads,
        w |-> G.w, h |-> G.h, D |-> G.D,
        off |-> [p \in 1..(G.w * G.h) |-> av0[p]],
        sched |-> hist']))
=============================================================================
