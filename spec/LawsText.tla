------------------------------- MODULE LawsText -------------------------------
(***************************************************************************)
(* Laws of the lexical level, checked by TLC: the automaton of JsonText    *)
(* against the grammar of RFC 8259 written as a grammar, number literals   *)
(* against arithmetic, escapes against code points.                        *)
(***************************************************************************)
EXTENDS Syntax, Numbers, Text

(***************************************************************************)
(* C12: the grammar. X(b, i) is the set of positions at which an X that    *)
(* begins at position i of b can end (the position of the byte after it).  *)
(***************************************************************************)
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 256
Byte(S, b, i) == IF At(b, i) \in S THEN {i + 1} ELSE {}
Word(t, b, i) == IF i + Len(t) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(t) - 1) = t THEN {i + Len(t)} ELSE {}
RECURSIVE Star(_, _, _)
Star(S, b, i) == {i} \cup (IF At(b, i) \in S THEN Star(S, b, i + 1) ELSE {})
WsSet == {32, 9, 10, 13}
Ws(b, i) == Star(WsSet, b, i)
Dg == 48..57
Digits1(b, i) == UNION {Star(Dg, b, j) : j \in Byte(Dg, b, i)}
IntPart(b, i) == LET js == {i} \cup Byte({45}, b, i)
                 IN UNION {Byte({48}, b, j) \cup UNION {Star(Dg, b, h) : h \in Byte(49..57, b, j)} : j \in js}
Frac(b, i) == {i} \cup UNION {Digits1(b, j) : j \in Byte({46}, b, i)}
Exp(b, i) == {i} \cup UNION {UNION {Digits1(b, h) : h \in {j} \cup Byte({43, 45}, b, j)} : j \in Byte({69, 101}, b, i)}
Number(b, i) == UNION {UNION {Exp(b, h) : h \in Frac(b, j)} : j \in IntPart(b, i)}
HexSet == Dg \cup 65..70 \cup 97..102
Char(b, i) ==
  Byte((32..255) \ {34, 92}, b, i)
  \cup UNION {Byte({34, 92, 47, 98, 102, 110, 114, 116}, b, j) : j \in Byte({92}, b, i)}
  \cup (IF At(b, i) = 92 /\ At(b, i + 1) = 117 /\ \A h \in 2..5 : At(b, i + h) \in HexSet THEN {i + 6} ELSE {})
RECURSIVE Chars(_, _)
Chars(b, i) == {i} \cup UNION {Chars(b, j) : j \in Char(b, i)}
String(b, i) == UNION {UNION {Byte({34}, b, h) : h \in Chars(b, j)} : j \in Byte({34}, b, i)}

RECURSIVE Value(_, _), Elements(_, _), Members(_, _)
WsValueWs(b, i) == UNION {UNION {Ws(b, h) : h \in Value(b, j)} : j \in Ws(b, i)}
Elements(b, i) == UNION {{j} \cup UNION {Elements(b, h) : h \in Byte({44}, b, j)} : j \in WsValueWs(b, i)}
Member(b, i) == UNION {UNION {UNION {UNION {WsValueWs(b, m) : m \in Byte({58}, b, l)} : l \in Ws(b, h)} : h \in String(b, j)} : j \in Ws(b, i)}
Members(b, i) == UNION {{j} \cup UNION {Members(b, h) : h \in Byte({44}, b, j)} : j \in Member(b, i)}
Value(b, i) ==
  CASE At(b, i) = 91  -> UNION {Byte({93}, b, j) : j \in Ws(b, i + 1) \cup Elements(b, i + 1)}
    [] At(b, i) = 123 -> UNION {Byte({125}, b, j) : j \in Ws(b, i + 1) \cup Members(b, i + 1)}
    [] At(b, i) = 34  -> String(b, i)
    [] OTHER -> Word(bTrue, b, i) \cup Word(bFalse, b, i) \cup Word(bNull, b, i) \cup Number(b, i)
IsDoc(b) == Len(b) + 1 \in WsValueWs(b, 1)

Same1(b) == Lex(b).ok = IsDoc(b)
Shallow == Len(c.st) <= MaxDepth

C12_Grammar ==
  /\ Same1(w)
  /\ \A i \in 1..Len(Tries) : LET b == Tries[i] IN
       Same1(IF Alive(b) THEN Append(w, b) \o Completion(Step(c, b)) ELSE Append(w, b))
\* A refused text isn't the beginning of any document.
C12_Dead == c.q # "x" => IsDoc(w \o Completion(c))

\* Tokens are what the grammar says they are, in order and without gaps but white space.
C12_Tokens ==
  LET b == w \o Completion(c)
      tk == Lex(b).tk
  IN /\ \A p \in 1..Len(tk) :
          /\ tk[p].e >= p \/ tk[p].k \in {"O", "A"}
          /\ tk[p].k \in {"o", "a"} => tk[tk[p].e].k = (IF tk[p].k = "o" THEN "O" ELSE "A") /\ tk[tk[p].e].e = tk[p].e
          /\ tk[p].k \in {"s", "k"} => tk[p].j + 1 \in String(b, tk[p].i + 1)
          /\ tk[p].k = "n" => tk[p].j + 1 \in Number(b, tk[p].i + 1)
     /\ \A p \in 1..(Len(tk) - 1) : tk[p].i < tk[p + 1].i
     /\ tk # <<>> => LET covered == UNION {tk[p].i..(IF tk[p].k \in {"o", "a"} THEN tk[p].i ELSE tk[p].j - 1) : p \in 1..Len(tk)}
                     IN \A i \in 0..(Len(b) - 1) : i \in covered \/ b[i + 1] \in WsSet \cup {44, 58}

C05_Literals == IsNumLit(w) = (Len(w) + 1 \in Number(w, 1))
C17_Literals == IsStrLit(w) = (Len(w) > 0 /\ Len(w) + 1 \in String(w, 1))

(***************************************************************************)
(* C04: integers of up to 32 bits against TLC's own.                       *)
(***************************************************************************)
RECURSIVE Dec10(_)
Dec10(n) == IF n < 10 THEN <<48 + n>> ELSE Dec10(n \div 10) \o <<48 + (n % 10)>>
Literal10(n) == IF n < 0 THEN <<45>> \o Dec10(-n) ELSE Dec10(n)
Around == UNION {(m - 12)..(m + 12) : m \in {-66000, -32768, -1000, -256, -128, 0, 100, 127, 255, 999, 9999, 32767, 65535, 99999, 1000000}}
ASSUME C04_Ranges ==
  \A n \in Around : LET b == Literal10(n) IN
    /\ IsIntLit(b)
    /\ FitsInt(b, 8) = (n >= -128 /\ n <= 127) /\ FitsInt(b, 16) = (n >= -32768 /\ n <= 32767)
    /\ FitsUint(b, 8) = (n >= 0 /\ n <= 255) /\ FitsUint(b, 16) = (n >= 0 /\ n <= 65535)
    /\ FitsInt(b, 32) /\ FitsInt(b, 64) /\ FitsUint(b, 32) = (n >= 0) /\ FitsUint(b, 64) = (n >= 0)
\* 2^31, 2^32, 2^63 and 2^64, by doubling digit strings.
RECURSIVE Twice(_, _, _)
Twice(b, i, carry) ==
  IF i = 0 THEN IF carry = 0 THEN <<>> ELSE <<48 + carry>>
  ELSE LET d == 2 * (b[i] - 48) + carry IN Twice(b, i - 1, d \div 10) \o <<48 + (d % 10)>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<49>> ELSE LET h == Pow2(n - 1) IN Twice(h, Len(h), 0)
Less1(b) == [b EXCEPT ![Len(b)] = @ - 1]      \* powers of two don't end in 0
ASSUME C04_Limits ==
  \A n \in {8, 16, 32, 64} :
    /\ MaxU(n) = Less1(Pow2(n)) /\ MaxI(n) = Less1(Pow2(n - 1)) /\ MinI(n) = Pow2(n - 1)
    /\ FitsUint(Less1(Pow2(n)), n) /\ ~FitsUint(Pow2(n), n)
    /\ FitsInt(Less1(Pow2(n - 1)), n) /\ ~FitsInt(Pow2(n - 1), n)
    /\ FitsInt(<<45>> \o Pow2(n - 1), n) /\ ~FitsInt(<<45, 57>> \o Pow2(n - 1), n)

(***************************************************************************)
(* C06: escapes.                                                           *)
(***************************************************************************)
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
U4(r) == <<92, 117, HexD(r \div 4096), HexD((r \div 256) % 16), HexD((r \div 16) % 16), HexD(r % 16)>>
\* Decodes UTF-8 by the table of RFC 3629.
RuneOf(b) ==
  CASE Len(b) = 1 /\ b[1] < 128 -> b[1]
    [] Len(b) = 2 /\ b[1] \in 194..223 -> (b[1] - 192) * 64 + (b[2] - 128)
    [] Len(b) = 3 /\ b[1] \in 224..239 -> ((b[1] - 224) * 64 + (b[2] - 128)) * 64 + (b[3] - 128)
    [] Len(b) = 4 /\ b[1] \in 240..244 -> (((b[1] - 240) * 64 + (b[2] - 128)) * 64 + (b[3] - 128)) * 64 + (b[4] - 128)
    [] OTHER -> -1
Conts(b) == \A i \in 2..Len(b) : b[i] \in 128..191
Sample == {r \in 0..65535 : r % 61 = 7 \/ r < 300 \/ r \in 2040..2060 \/ (r \in 55280..57360 /\ r % 5 = 0) \/ r > 65520
             \/ r \in {55295, 55296, 56319, 56320, 57343, 57344}}
IsSur(r) == r \in 55296..57343
ASSUME C06_Escapes ==
  \A r \in Sample :
    LET u == Unescape(<<97>> \o U4(r) \o <<98>>)
        m == SubSeq(u, 2, Len(u) - 1)
    IN /\ u[1] = 97 /\ u[Len(u)] = 98
       /\ Conts(m) /\ RuneOf(m) = IF IsSur(r) THEN 65533 ELSE r
ASSUME C06_Pairs ==
  \A hi \in {55296, 55297, 55357, 56319} : \A lo \in {56320, 56321, 56832, 57343} :
    LET m == Unescape(U4(hi) \o U4(lo)) IN
    /\ Len(m) = 4 /\ Conts(m) /\ RuneOf(m) = 65536 + (hi - 55296) * 1024 + (lo - 56320)
    \* the wrong way round, or alone
    /\ Unescape(U4(lo) \o U4(hi)) = Utf8(65533) \o Utf8(65533)
    /\ Unescape(U4(hi) \o <<97>>) = Utf8(65533) \o <<97>>
    /\ Unescape(U4(hi) \o U4(hi) \o U4(lo)) = Utf8(65533) \o m
    /\ Unescape(U4(hi) \o <<92, 110>> \o U4(lo)) = Utf8(65533) \o <<10>> \o Utf8(65533)
ASSUME C06_Simple ==
  /\ Unescape(<<92, 34, 92, 92, 92, 47, 92, 98, 92, 102, 92, 110, 92, 114, 92, 116>>) = <<34, 92, 47, 8, 12, 10, 13, 9>>
  /\ Unescape(<<>>) = <<>>
=============================================================================
