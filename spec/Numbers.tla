------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* JSON number literals and Go integer ranges, on digit sequences (TLC     *)
(* integers have 32 bits).                                                 *)
(***************************************************************************)
EXTENDS Bytes

IsNeg(b) == Len(b) > 0 /\ b[1] = 45

Digits(b) == IF IsNeg(b) THEN Tail(b) ELSE b

AllDigits(b) == \A i \in 1..Len(b) : IsDigit(b[i])

\* An integer literal: -?(0|[1-9][0-9]*)
IsIntLit(b) ==
  LET d == Digits(b)
  IN /\ Len(d) > 0
     /\ AllDigits(d)
     /\ (d[1] = 48 => Len(d) = 1)

\* Position of the first byte of b (from i on) that is in set S, or 0.
RECURSIVE Find(_, _, _)
Find(b, S, i) == IF i > Len(b) THEN 0 ELSE IF b[i] \in S THEN i ELSE Find(b, S, i + 1)

IsExp(b) ==          \* what follows e or E
  LET d == IF Len(b) > 0 /\ b[1] \in {43, 45} THEN Tail(b) ELSE b
  IN Len(d) > 0 /\ AllDigits(d)

\* Any JSON number literal.
IsNumLit(b) ==
  LET e == Find(b, {69, 101}, 1)
      m == IF e = 0 THEN b ELSE SubSeq(b, 1, e - 1)
      p == Find(m, {46}, 1)
      n == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      f == SubSeq(m, p + 1, Len(m))
  IN /\ IsIntLit(n)
     /\ (p # 0 => Len(f) > 0 /\ AllDigits(f))
     /\ (e # 0 => IsExp(SubSeq(b, e + 1, Len(b))))

\* Largest magnitudes of the Go integer types.
MaxU(bits) ==
  CASE bits = 8  -> <<50, 53, 53>>
    [] bits = 16 -> <<54, 53, 53, 51, 53>>
    [] bits = 32 -> <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
    [] bits = 64 -> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
MaxI(bits) ==
  CASE bits = 8  -> <<49, 50, 55>>
    [] bits = 16 -> <<51, 50, 55, 54, 55>>
    [] bits = 32 -> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
    [] bits = 64 -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
\* The magnitude of the minimum is the magnitude of the maximum plus one, and
\* the last digit of the maximum is 7.
MinI(bits) == LET m == MaxI(bits) IN [m EXCEPT ![Len(m)] = @ + 1]

MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeqFrom(a, b, 1))

\* Does the integer literal b fit an integer of the given width?
FitsInt(b, bits)  == IF IsNeg(b) THEN MagLeq(Digits(b), MinI(bits))
                                 ELSE MagLeq(b, MaxI(bits))
FitsUint(b, bits) == ~IsNeg(b) /\ MagLeq(b, MaxU(bits))

\* Canonical form of an integer literal: no negative zero.
Canon(b) == IF b = <<45, 48>> THEN <<48>> ELSE b
=============================================================================
