------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* All invocations of the command within Depth single faults of a good one *)
(* (C19) and all good ones with optional parameters (C18), emitted for     *)
(* replay with the real command. Outcomes are checked here for             *)
(* consistency: they do not depend on the order of the parameters, and     *)
(* once the outcome is "fail" more of the same kind of fault never mends   *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Cli, Json
CONSTANTS Depth
VARIABLES a, n
vars == <<a, n>>

Num(k) == IF k < 10 THEN <<48 + k>> ELSE <<48 + (k \div 10), 48 + (k % 10)>>
Big == P!Limit \o <<48>>
Arg(o, val, class) == [opt |-> o, val |-> val, class |-> class]
Good(w, h, mx, opts) ==
    [lw |-> w, lh |-> h, lm |-> mx, L |-> [i \in 1..(w * h) |-> i % (mx + 1)],
     rw |-> w, rh |-> h, rm |-> mx, R |-> [i \in 1..(w * h) |-> (2 * i) % (mx + 1)],
     lk |-> "ok", rk |-> "ok", out |-> "ok", before |-> "none",
     args |-> <<Arg("left-image", <<>>, "path"), Arg("right-image", <<>>, "path"),
                Arg("output-image", <<>>, "path")>> \o opts]
Bases ==
    {Good(3, 1, 4, <<>>), Good(2, 2, 9, <<Arg("disparity-levels", <<50>>, "word")>>),
     Good(4, 1, 2, <<Arg("cleanness", <<>>, "pos"), Arg("smoothness", <<>>, "pos"),
                     Arg("disparity-levels", <<51>>, "word"), Arg("parallel", <<>>, "cpu")>>),
     Good(3, 2, 3, <<Arg("smoothness", <<>>, "zero")>>)}

\* ---- what the invocation means
Text(kind, w, h, mx, data) ==
    CASE kind \in {"missing", "dir"} -> Missing
      [] kind = "empty" -> <<>>
      [] kind = "binary" -> <<80, 53>> \o SubSeq(P!Encode([w |-> Num(w), h |-> Num(h), max |-> Num(mx),
                                data |-> [i \in 1..Len(data) |-> Num(data[i])]]), 3, 12)
      [] OTHER ->
         LET t == P!Encode([w |-> Num(w), h |-> Num(h), max |-> IF kind = "bright" THEN Big ELSE Num(mx),
                            data |-> [i \in 1..Len(data) |-> Num(data[i])]])
         IN  IF kind = "more" THEN t \o <<55, 10>>
             ELSE IF kind = "word" THEN t \o <<120>>
             ELSE t
LeftText == Text(a.lk, a.lw, a.lh, a.lm, a.L)
RightText == Text(a.rk, a.rw, a.rh, a.rm, a.R)
Inv(x) == [args |-> a.args, left |-> LeftText, right |-> RightText,
           writable |-> IF a.out = "ok" THEN 1 ELSE IF a.out = "limit" THEN 2 ELSE 0]
Result == Outcome(Inv(a))

\* ---- faults and variations
Set(f, v) == v >= 0 /\ a' = [a EXCEPT ![f] = v]
Near(x) == {x - 1, x + 1, 0}
ArgAt(o) == {i \in 1..Len(a.args) : a.args[i].opt = o}
WithOut(i) == SubSeq(a.args, 1, i - 1) \o SubSeq(a.args, i + 1, Len(a.args))
Put(o, val, class) ==      \* change the value, or add the parameter
    a' = [a EXCEPT !.args = IF ArgAt(o) = {} THEN Append(@, Arg(o, val, class))
                            ELSE [@ EXCEPT ![CHOOSE i \in ArgAt(o) : TRUE] = Arg(o, val, class)]]
Levels2 ==
    {<<48>>, <<49>>, <<50>>, <<51>>, <<52>>, <<53>>, <<48, 48, 50>>,
     <<45, 49>>, <<45, 50>>, <<50, 46, 53>>, <<50, 120>>, <<97>>, <<50, 101, 48>>, <<>>,
     <<52, 50, 57, 52, 57, 54, 55, 50, 57, 56>>,                                        \* 2^32 + 2
     <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 56>>, \* 2^64 + 2
     <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>}
WeightClasses == {"pos", "zero", "neg", "nan", "inf", "neginf", "word"}
Kinds == {"missing", "empty", "binary", "bright", "more", "word", "dir"}

Fault ==
    \/ \E f \in {"lw", "lh", "lm", "rw", "rh", "rm"} : \E v \in Near(a[f]) : Set(f, v)
    \/ \E f \in {"L", "R"} :
        \/ a' = [a EXCEPT ![f] = Append(@, 0)]
        \/ a[f] # <<>> /\ a' = [a EXCEPT ![f] = SubSeq(@, 1, Len(@) - 1)]
        \/ \E i \in 1..Len(a[f]) : a' = [a EXCEPT ![f][i] = (IF f = "L" THEN a.lm ELSE a.rm) + 1]
    \/ \E f \in {"lk", "rk"} : \E k \in Kinds : a' = [a EXCEPT ![f] = k]
    \/ a' = [a EXCEPT !.lw = a.lh, !.lh = a.lw]
    \/ a' = [a EXCEPT !.lw = a.lh, !.lh = a.lw, !.rw = a.rh, !.rh = a.rw]
    \/ \E o \in {"nodir", "dir", "full", "limit"} : a' = [a EXCEPT !.out = o]
    \/ \E i \in 1..Len(a.args) : a' = [a EXCEPT !.args = WithOut(i)]
    \/ \E i \in 1..Len(a.args) : a' = [a EXCEPT !.args = Append(@, a.args[i])]
    \/ \E i \in 1..Len(a.args) : a' = [a EXCEPT !.args = Append(WithOut(i), Arg(a.args[i].opt, <<>>, "none"))]
    \/ a' = [a EXCEPT !.args = Append(@, Arg("unknown", <<>>, "word"))]
    \/ \E val \in Levels2 : Put("disparity-levels", val, "word")
    \/ \E o \in {"cleanness", "smoothness"} : \E class \in WeightClasses : Put(o, <<>>, class)
    \/ \E class \in {"cpu", "word"} : Put("parallel", <<>>, class)
    \/ ArgAt("help") = {} /\ a' = [a EXCEPT !.args = Append(@, Arg("help", <<>>, "flag"))]
    \/ a.before = "none" /\ \E b \in {"map", "junk"} : a' = [a EXCEPT !.before = b]
    \/ a.args # <<>> /\ a' = [a EXCEPT !.args = <<>>]

\* A value is missing only at the end: elsewhere the next parameter is it.
WellShaped(x) == \A i \in 1..(Len(x.args) - 1) : x.args[i].class # "none"
\* Help together with an erroneous command line: no outcome is documented.
Documented == Given(Inv(a), "help") => Parses(Inv(a))

Init == a \in Bases /\ n = 0
Next == n < Depth /\ Fault /\ WellShaped(a') /\ n' = n + 1
Spec == Init /\ [][Next]_vars
View == a

Emitted ==
    Documented => PrintT("EMIT " \o ToJson(
        [args |-> a.args, left |-> LeftText, right |-> RightText, lk |-> a.lk, rk |-> a.rk, out |-> a.out,
         before |-> a.before, outcome |-> Result]))

\* ---- consistency of the outcomes
Total == Result \in {"help", "usage", "fail", "map"}
GoodOnes == n = 0 => Result = "map"
Reversed(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
OrderFree == Outcome(Inv(a)) = Outcome([Inv(a) EXCEPT !.args = Reversed(@)])
\* The command succeeds only when the library accepts the problem.
MapIsWellPosed ==
    Result = "map" =>
        LET l == ImageOf(LeftText) r == ImageOf(RightText) w == P!ValueOf(l.w)
            vals(q) == [i \in 1..Len(q) |-> P!ValueOf(q[i])]
        IN  WellPosed([lw |-> w, lh |-> P!ValueOf(l.h), lm |-> P!ValueOf(l.max), L |-> vals(l.data),
                       rw |-> P!ValueOf(r.w), rh |-> P!ValueOf(r.h), rm |-> P!ValueOf(r.max), R |-> vals(r.data),
                       D |-> Levels(Inv(a), w),
                       cc |-> WeightClass(Inv(a), "cleanness"), sc |-> WeightClass(Inv(a), "smoothness")])
=============================================================================
