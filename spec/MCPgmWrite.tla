----------------------------- MODULE MCPgmWrite -----------------------------
(***************************************************************************)
(* The reference writer: reading what it wrote gives the image, in lines   *)
(* of at most 70 characters (C03); images emitted for the real writer.     *)
(***************************************************************************)
EXTENDS Pgm, TLC, Json
CONSTANTS MaxPixels
VARIABLE img
One == {<<48>>, <<49>>, <<57>>, <<49, 48>>, <<54, 53, 53, 51, 54>>, <<54, 53, 53, 51, 55>>}
RECURSIVE Numeral(_)
Numeral(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Numeral(n \div 10), 48 + (n % 10))
Sizes == 0..3
\* tiny images with every content, and long rows of equal numbers
Init ==
    \/ \E w \in Sizes, h \in Sizes, m \in One, n \in 0..MaxPixels : \E d \in [1..n -> One] :
        img = [w |-> Numeral(w), h |-> Numeral(h), max |-> m, data |-> d]
    \/ \E w \in 1..40, h \in 1..2, v \in One :
        img = [w |-> Numeral(w), h |-> Numeral(h), max |-> <<54, 53, 53, 51, 54>>,
               data |-> [i \in 1..(w * h) |-> v]]
Next == UNCHANGED img
Spec == Init /\ [][Next]_img
RoundTrip == Encodable(img) => Decode(Encode(img)) = img /\ LinesBounded(Encode(img))
OnlyValid == Decode(Encode(img)) # NoImage => img.w # <<48>> /\ img.h # <<48>>
Emitted == PrintT("EMIT " \o ToJson(img))
=============================================================================
