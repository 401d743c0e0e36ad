------------------------------- MODULE MCPgm -------------------------------
(***************************************************************************)
(* All texts within Depth single-character edits of the texts in Bases, at *)
(* each of which the reader is run to the end (C01, C02); texts are        *)
(* emitted for replay in the real reader.                                  *)
(***************************************************************************)
EXTENDS Pgm, TLC, Json
CONSTANTS Bases, Alphabet, Depth

VARIABLES text, edits, pos, reader
vars == <<text, edits, pos, reader>>

Init == text \in Bases /\ edits = 0 /\ pos = 0 /\ reader = Start

\* ---- edit, before reading begins
Delete(i) == SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text))
Insert(i, ch) == SubSeq(text, 1, i - 1) \o <<ch>> \o SubSeq(text, i, Len(text))
Edit ==
    /\ pos = 0 /\ edits < Depth
    /\ edits' = edits + 1
    /\ \/ \E i \in 1..Len(text) : text' = Delete(i)
       \/ \E i \in 1..Len(text) : \E ch \in Alphabet : text' = [text EXCEPT ![i] = ch]
       \/ \E i \in 1..(Len(text) + 1) : \E ch \in Alphabet : text' = Insert(i, ch)
       \/ \E i \in 0..(Len(text) - 1) : text' = SubSeq(text, 1, i)
    /\ UNCHANGED <<pos, reader>>

\* ---- read one character
Read ==
    /\ pos < Len(text)
    /\ pos' = pos + 1
    /\ reader' = Feed(reader, text[pos + 1])
    /\ UNCHANGED <<text, edits>>

Next == Edit \/ Read
Spec == Init /\ [][Next]_vars
View == <<text, pos, reader, IF pos = 0 THEN edits ELSE Depth>>

\* The reader never delivers anything but what the text encodes, and it
\* recognizes every well-formed text.
ReaderIsGrammar == pos = Len(text) => AtEnd(reader) = Decode(text)
\* A reader that failed does not recover: no longer text is accepted.
FailedIsFinal == reader.mode = "failed" => AtEnd(reader) = NoImage
\* It keeps at most one numeral per two characters, so its memory is bounded
\* by what was read and not by what the header claims.
MemoryBounded == 2 * Len(reader.seen) <= pos
Emitted == pos = 0 => PrintT("EMIT " \o ToJson([text |-> text]))

\* ---- instances
Chars(s) == s
T1 == <<80,50,10,50,32,49,10,57,10,49,32,50,10>>                              \* P2\n2 1\n9\n1 2\n
T2 == <<80,50,32,35,97,10,49,9,50,13,10,55,32,35,10,51,35,32,52>>             \* P2 #a\n1\t2\r\n7 #\n3# 4
T3 == <<35,32,80,50,10,80,50,10,49,32,49,10,54,53,53,51,54,10,48,48,54,10,35,120>>  \* # P2\nP2\n1 1\n65536\n006\n#x
T4 == <<80,50,10,50,32,50,10,49,10,49,32,48,10,48,32,49>>                     \* P2\n2 2\n1\n1 0\n0 1
BasesAll == {T1, T2, T3, T4}
BasesOne == {T1, T3}
CharsAll == {9, 10, 13, 32, 35, 45, 46, 48, 49, 50, 80, 120}
CharsFew == {10, 32, 35, 48, 49, 120}
=============================================================================
