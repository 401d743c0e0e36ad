-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Penalties as TLC values. TLC integers have 32 bits while squared        *)
(* 16-bit intensities need 33, so a "wide" number is a pair <<hi, lo>>     *)
(* with 0 <= lo < Base that stands for hi * Base + lo. With Wide = FALSE   *)
(* the same operators work on plain integers.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT Wide       \* BOOLEAN: are penalties wide pairs or plain integers?

Base == 32768

WNorm(hi, lo) == <<hi + (lo \div Base), lo % Base>>

NOf(n)     == IF Wide THEN WNorm(0, n) ELSE n
NZero      == NOf(0)
NAdd(a, b) == IF Wide THEN WNorm(a[1] + b[1], a[2] + b[2]) ELSE a + b
NSub(a, b) == IF Wide THEN WNorm(a[1] - b[1], a[2] - b[2]) ELSE a - b
NLeq(a, b) == IF Wide THEN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
                      ELSE a <= b
NLt(a, b)  == NLeq(a, b) /\ a # b

\* k * a for a small non-negative integer k (k * Base must fit 32 bits).
NMul(k, a) == IF Wide THEN WNorm(k * a[1], k * a[2]) ELSE k * a

\* Square of a plain integer with |n| <= 65536.
NSq(n) ==
    LET m == IF n < 0 THEN -n ELSE n
        u == m \div 256
        v == m % 256
    IN  IF Wide THEN WNorm(2 * u * u, u * v * 512 + v * v) ELSE n * n

NMin(S) == LET T == TLCEval(S) IN CHOOSE a \in T : \A b \in T : NLeq(a, b)
NMax(S) == LET T == TLCEval(S) IN CHOOSE a \in T : \A b \in T : NLeq(b, a)
=============================================================================
