-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* String escapes, UTF-8 and Unicode simple case folding.                  *)
(***************************************************************************)
EXTENDS Bytes

Utf8(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

Hex4(b, i) == ((HexVal(b[i]) * 16 + HexVal(b[i + 1])) * 16 + HexVal(b[i + 2])) * 16 + HexVal(b[i + 3])

IsHigh(r) == r >= 55296 /\ r < 56320
IsLow(r)  == r >= 56320 /\ r < 57344

SimpleEsc(c) ==
  CASE c = 98  -> 8
    [] c = 102 -> 12
    [] c = 110 -> 10
    [] c = 114 -> 13
    [] c = 116 -> 9
    [] OTHER   -> c      \* quotation mark, reverse solidus, solidus

\* First position >= i of a reverse solidus in b, or Len(b)+1.
RECURSIVE NextEsc(_, _)
NextEsc(b, i) == IF i > Len(b) THEN i ELSE IF b[i] = 92 THEN i ELSE NextEsc(b, i + 1)

\* The text denoted by the body of a valid JSON string from position i on.
\* An escaped surrogate that is not part of a high/low pair denotes U+FFFD.
RECURSIVE UnescFrom(_, _)
UnescFrom(b, i) ==
  LET n == NextEsc(b, i)
      lit == SubSeq(b, i, n - 1)
  IN IF n > Len(b) THEN lit
     ELSE IF b[n + 1] # 117 THEN lit \o <<SimpleEsc(b[n + 1])>> \o UnescFrom(b, n + 2)
     ELSE LET r == Hex4(b, n + 2)
          IN IF IsHigh(r) /\ n + 11 <= Len(b) /\ b[n + 6] = 92 /\ b[n + 7] = 117 /\ IsLow(Hex4(b, n + 8))
             THEN lit \o Utf8(65536 + (r - 55296) * 1024 + (Hex4(b, n + 8) - 56320))
                      \o UnescFrom(b, n + 12)
             ELSE lit \o (IF IsHigh(r) \/ IsLow(r) THEN Utf8(65533) ELSE Utf8(r))
                      \o UnescFrom(b, n + 6)

Unescape(b) == IF Has(b, 92) THEN UnescFrom(b, 1) ELSE b

\* Is b, in its entirety, a JSON string literal?
RECURSIVE StrBodyOK(_, _)
StrBodyOK(b, i) ==      \* from position i on, up to the closing quotation mark
  IF i > Len(b) THEN FALSE
  ELSE IF b[i] = 34 THEN i = Len(b)
  ELSE IF b[i] < 32 THEN FALSE
  ELSE IF b[i] # 92 THEN StrBodyOK(b, i + 1)
  ELSE IF i + 1 > Len(b) THEN FALSE
  ELSE IF b[i + 1] \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StrBodyOK(b, i + 2)
  ELSE /\ b[i + 1] = 117
       /\ i + 5 <= Len(b)
       /\ \A h \in 2..5 : IsHex(b[i + h])
       /\ StrBodyOK(b, i + 6)
IsStrLit(b) == Len(b) >= 2 /\ b[1] = 34 /\ StrBodyOK(b, 2)

(***************************************************************************)
(* Case folding. FoldTab maps the non-ASCII runes that matter to the       *)
(* representative of their orbit under Unicode simple folding.             *)
(***************************************************************************)
\* Decodes valid UTF-8 into runes, folding each.
RECURSIVE FoldFrom(_, _, _)
FoldFrom(b, i, tab) ==
  IF i > Len(b) THEN <<>>
  ELSE LET c == b[i] IN
    IF c < 128 THEN <<IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c>> \o FoldFrom(b, i + 1, tab)
    ELSE LET n == IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4
             m == IF i + n - 1 > Len(b) THEN Len(b) - i + 1 ELSE n
             seq == SubSeq(b, i, i + m - 1)
             hit == {k \in DOMAIN tab : tab[k][1] = seq}
         IN (IF hit = {} THEN seq ELSE tab[CHOOSE k \in hit : TRUE][2]) \o FoldFrom(b, i + m, tab)
Fold(b, tab) == FoldFrom(b, 1, tab)
=============================================================================
