-------------------------------- MODULE Pgm --------------------------------
(***************************************************************************)
(* The plain PGM format. A text is a sequence of character codes.          *)
(*                                                                         *)
(* Two independent definitions:                                            *)
(*   Decode(text)   declarative: tokens, numerals, amounts                 *)
(*   Start, Feed, AtEnd   a reader that consumes one character at a time,  *)
(*                  remembering only what a reader has to remember         *)
(* Numbers have no bound here, so they are numerals: sequences of digit    *)
(* codes without leading zeros.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NL == 10
Hash == 35
White == {9, 10, 11, 12, 13, 32}
Digits == 48..57
Magic == <<80, 50>>

\* ---- numerals --------------------------------------------------------------
IsNumeral(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in Digits

\* Without leading zeros.
Canon(t) ==
    LET nz == {i \in 1..Len(t) : t[i] # 48}
    IN  IF nz = {} THEN <<48>>
        ELSE SubSeq(t, CHOOSE i \in nz : \A j \in nz : i <= j, Len(t))

\* a <= b for canonical numerals
RECURSIVE Leq(_, _)
Leq(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \/ a = <<>>
          \/ Head(a) < Head(b)
          \/ Head(a) = Head(b) /\ Leq(Tail(a), Tail(b))
\* 2^64 - 1, the largest number the program can hold
Largest64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
Limit == <<54, 53, 53, 51, 54>>                 \* 65536
Representable(t) == IsNumeral(t) /\ Leq(Canon(t), Largest64)

\* Value of a canonical numeral with at most 9 digits.
RECURSIVE ValueOf(_)
ValueOf(t) == IF t = <<>> THEN 0 ELSE 10 * ValueOf(SubSeq(t, 1, Len(t) - 1)) + t[Len(t)] - 48
IsSmall(t) == Len(t) <= 9

\* a * b = n for canonical numerals a, b and a small number n > 0
ProductIs(a, b, n) ==
    /\ IsSmall(a) /\ IsSmall(b)
    /\ ValueOf(a) \in 1..n /\ ValueOf(b) \in 1..n
    /\ ValueOf(a) <= n \div ValueOf(b)
    /\ ValueOf(a) * ValueOf(b) = n

\* ---- declarative definition ------------------------------------------------
\* Comments start where a token could start and end with their line.
RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF i > Len(t) \/ t[i] = NL THEN i ELSE LineEnd(t, i + 1)
RECURSIVE TokenEnd(_, _)
TokenEnd(t, i) == IF i > Len(t) \/ t[i] \in White THEN i ELSE TokenEnd(t, i + 1)
RECURSIVE TokensFrom(_, _, _)
TokensFrom(t, i, acc) ==
    IF i > Len(t) THEN acc
    ELSE IF t[i] \in White THEN TokensFrom(t, i + 1, acc)
    ELSE IF t[i] = Hash THEN TokensFrom(t, LineEnd(t, i), acc)
    ELSE TokensFrom(t, TokenEnd(t, i), Append(acc, SubSeq(t, i, TokenEnd(t, i) - 1)))
Tokens(t) == TokensFrom(t, 1, <<>>)

WellFormedTokens(k) ==
    /\ Len(k) >= 5
    /\ k[1] = Magic
    /\ \A i \in 2..Len(k) : Representable(k[i])
    /\ Leq(Canon(k[4]), Limit)
    /\ ProductIs(Canon(k[2]), Canon(k[3]), Len(k) - 4)

NoImage == [w |-> <<>>, h |-> <<>>, max |-> <<>>, data |-> <<>>]
\* The encoded image, NoImage if the text is malformed.
Decode(t) ==
    LET k == Tokens(t)
    IN  IF WellFormedTokens(k)
        THEN [w |-> Canon(k[2]), h |-> Canon(k[3]), max |-> Canon(k[4]),
              data |-> [i \in 1..(Len(k) - 4) |-> Canon(k[i + 4])]]
        ELSE NoImage

\* ---- reader ----------------------------------------------------------------
\* mode: "gap", "token", "comment" or "failed"; word: token being read;
\* seen: complete tokens so far (the magic is not kept).
Start == [mode |-> "gap", word |-> <<>>, magic |-> FALSE, seen |-> <<>>]
Fail(r) == [r EXCEPT !.mode = "failed"]

\* A complete token arrived.
Complete(r) ==
    IF ~r.magic
    THEN IF r.word = Magic THEN [r EXCEPT !.magic = TRUE, !.word = <<>>, !.mode = "gap"] ELSE Fail(r)
    ELSE LET s2 == Append(r.seen, Canon(r.word))
             n == Len(s2)
             ok == /\ Representable(r.word)
                   /\ n <= 2 => s2[n] # <<48>>
                   /\ n = 3 => Leq(s2[n], Limit)
                   \* never more intensities than announced
                   /\ n > 3 => ~(IsSmall(s2[1]) /\ IsSmall(s2[2])
                                 /\ ValueOf(s2[1]) <= (n - 4) \div ValueOf(s2[2]))
         IN  IF ok THEN [r EXCEPT !.seen = s2, !.word = <<>>, !.mode = "gap"] ELSE Fail(r)

Feed(r, ch) ==
    CASE r.mode = "failed" -> r
      [] r.mode = "comment" -> IF ch = NL THEN [r EXCEPT !.mode = "gap"] ELSE r
      [] r.mode = "gap" -> IF ch \in White THEN r
                           ELSE IF ch = Hash THEN [r EXCEPT !.mode = "comment"]
                           ELSE [r EXCEPT !.mode = "token", !.word = <<ch>>]
      [] r.mode = "token" -> IF ch \in White THEN Complete(r)
                             ELSE [r EXCEPT !.word = Append(@, ch)]

\* What the reader delivers when the text ends here.
AtEnd(r) ==
    LET f == IF r.mode = "token" THEN Complete(r) ELSE r
    IN  IF f.mode # "failed" /\ Len(f.seen) >= 4 /\ ProductIs(f.seen[1], f.seen[2], Len(f.seen) - 3)
        THEN [w |-> f.seen[1], h |-> f.seen[2], max |-> f.seen[3],
              data |-> SubSeq(f.seen, 4, Len(f.seen))]
        ELSE NoImage

\* ---- writer ----------------------------------------------------------------
\* img: w, h, max, data as numerals
ValidImage(img) ==
    /\ img.w # <<48>> /\ img.h # <<48>> /\ img.max # <<48>>
    /\ Len(img.data) > 0 /\ ProductIs(img.w, img.h, Len(img.data))
    /\ \A i \in 1..Len(img.data) : Leq(img.data[i], img.max)
Encodable(img) == ValidImage(img) /\ Leq(img.max, Limit)

\* No line is longer than 70 characters.
MaxColumns == 70
LinesBounded(t) ==
    LET ends == {0} \cup {i \in 1..Len(t) : t[i] = NL} \cup {Len(t) + 1}
    IN  \A i \in ends : i = Len(t) + 1 \/ \E j \in ends : j > i /\ j - i - 1 <= MaxColumns

\* A reference writer: one line per header item, numbers broken into lines.
RECURSIVE Body(_, _, _)
Body(data, i, col) ==
    IF i > Len(data) THEN <<NL>>
    ELSE LET need == Len(data[i]) + IF col = 0 THEN 0 ELSE 1
         IN  IF col + need > MaxColumns
             THEN <<NL>> \o data[i] \o Body(data, i + 1, Len(data[i]))
             ELSE (IF col = 0 THEN <<>> ELSE <<32>>) \o data[i] \o Body(data, i + 1, col + need)
Encode(img) ==
    Magic \o <<NL>> \o img.w \o <<32>> \o img.h \o <<NL>> \o img.max \o <<NL>> \o Body(img.data, 1, 0)

\* ---- contracts ---------------------------------------------------------------
Clause(name, holds) == IF holds THEN {} ELSE {name}

\* held: image before; r: [fail, threw, held, peak] observed. A stream that has
\* failed before delivers nothing.
ReadBroken(text, usable, held, r) ==
    LET img == IF usable THEN Decode(text) ELSE NoImage
    IN  Clause("read-no-exception", ~r.threw)
        \cup Clause("read-memory", r.peak <= 64 * Len(text) + 1048576)
        \cup IF img # NoImage
             THEN Clause("read-accepts", ~r.fail) \cup Clause("read-image", r.held = img)
             ELSE Clause("read-refuses", r.fail) \cup Clause("read-keeps-image", r.held = held)

WriteBroken(img, text, fail) ==
    Clause("write-stream", ~fail)
    \cup IF Encodable(img)
         THEN Clause("write-decodes", Decode(text) = img)
              \cup Clause("write-columns", LinesBounded(text))
         ELSE Clause("write-nothing", text = <<>>)
=============================================================================
