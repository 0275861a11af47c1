------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings are sequences of integers 0..255.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsDigit(c) == c >= 48 /\ c <= 57
IsWS(c)    == c = 32 \/ c = 10 \/ c = 13 \/ c = 9
IsHex(c)   == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c)  == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

\* Slice(b, i, j): the bytes at 0-based offsets i..j-1, like b[i:j] in Go.
Slice(b, i, j) == SubSeq(b, i + 1, j)

\* Lexicographic comparison of two byte strings of equal length.
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) ==
  IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN LeqFrom(a, b, i + 1)
  ELSE a[i] < b[i]

Has(b, c) == \E i \in 1..Len(b) : b[i] = c

bTrue  == <<116, 114, 117, 101>>
bFalse == <<102, 97, 108, 115, 101>>
bNull  == <<110, 117, 108, 108>>
=============================================================================
