--------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* The properties, stated as laws of the decoding function of module       *)
(* Decode and checked by TLC for all types and documents of small scope    *)
(* (the state space of module Scope). Each law says in its own terms what  *)
(* the function, which is defined by recursion over tokens, has to         *)
(* satisfy. The names begin with the property they belong to.              *)
(***************************************************************************)
EXTENDS Scope

Bounded == TLCSet(x, Count + 1) /\ Count <= Budget /\ (w # <<>> => ~Dead(Outcome(Lexed(w))))

t0   == Targets[x]
TT   == Types[t0]
Text0 == w \o Completion(Lexed(w))
Toks == Lex(Text0).tk
C0   == [s |-> Text0, tk |-> Toks, fl |-> FL, o |-> NoOpts, src |-> "string"]
R0   == Call(t0, Default, Text0, FL, NoOpts)

Kinds(t) == {Types[u].k : u \in Closure({t})}
Custom(t) == Kinds(t) \cap {"ju", "tu"} # {} \/ \E u \in Closure({t}) : Types[u].k = "map" /\ Types[u].kd.k = "tu"

(***************************************************************************)
(* Populated values.                                                       *)
(***************************************************************************)
SomeKey(kd) == CASE kd.k \in {"int", "uint"} -> <<55>>
                 [] kd.k = "tu" -> KeyAt([s |-> <<34, 107, 34>>, tk |-> <<[k |-> "k", i |-> 0, j |-> 3, e |-> 1]>>], kd, 1).v
                 [] OTHER -> <<97>>
RECURSIVE Full(_, _)
Full(t, d) ==
  LET T == Types[t] IN
  CASE T.k = "bool" -> [b |-> TRUE]
    [] T.k \in {"str", "num"} -> [s |-> <<56>>]
    [] T.k \in {"int", "uint"} -> [i |-> <<56>>]
    [] T.k = "float" -> [f |-> IF T.bits = 32 THEN "3f000000" ELSE "3fe0000000000000"]
    [] T.k = "arr" -> [ar |-> [i \in 1..T.n |-> Full(T.e, d)]]
    [] T.k = "struct" -> [st |-> [i \in 1..Len(T.f) |-> Full(T.f[i].t, d)]]
    [] T.k \in {"ju", "tu"} -> Zero(t)
    [] d = 0 -> Nil
    [] T.k = "any" -> [a |-> [s |-> <<111>>]]
    [] T.k = "slice" -> [sl |-> <<Full(T.e, d - 1)>>, sp |-> <<Full(T.e, d - 1)>>, id |-> IF Types[T.e].z THEN 0 ELSE 11]
    [] T.k = "ptr" -> [p |-> Full(T.e, d - 1), id |-> IF Types[T.e].z THEN 0 ELSE 12]
    [] T.k = "map" -> [mf |-> (SomeKey(T.kd) :> Full(T.e, d - 1)), id |-> 13]
V1 == Full(t0, 2)
R1 == Call(t0, V1, Text0, FL, NoOpts)

(***************************************************************************)
(* C01: what a fitting document denotes can be written down and read back. *)
(***************************************************************************)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE EscBytes(_, _)
EscBytes(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE (IF b[i] \in {34, 92} THEN <<92, b[i]>>
        ELSE IF b[i] < 32 THEN <<92, 117, 48, 48, HexDigit(b[i] \div 16), HexDigit(b[i] % 16)>>
        ELSE <<b[i]>>) \o EscBytes(b, i + 1)
EncStr(b) == Quote(EscBytes(b, 1))
Lit(f, bits) == LET i == CHOOSE i \in 1..Len(FL) : (IF bits = 32 THEN FL[i].f32 ELSE FL[i].f64) = f IN FL[i].l
Commas(s) == IF s = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o <<44>> \o b, Head(s), Tail(s))

RECURSIVE EncAny(_), Enc(_, _)
EncAny(v) ==
  CASE IsNil(v) -> bNull
    [] "b" \in DOMAIN v -> IF v.b THEN bTrue ELSE bFalse
    [] "s" \in DOMAIN v -> EncStr(v.s)
    [] "f" \in DOMAIN v -> Lit(v.f, 64)
    [] "sl" \in DOMAIN v -> <<91>> \o Commas([i \in 1..Len(v.sl) |-> EncAny(v.sl[i].a)]) \o <<93>>
    [] "mf" \in DOMAIN v -> LET K == SetToSeq(DOMAIN v.mf)
                            IN <<123>> \o Commas([i \in 1..Len(K) |-> EncStr(K[i]) \o <<58>> \o EncAny(v.mf[K[i]].a)]) \o <<125>>
Reachable(T, i) == ~T.f[i].x /\ \A j \in 1..(i - 1) : T.f[j].x \/ T.f[j].n # T.f[i].n
Enc(t, v) ==
  LET T == Types[t] IN
  CASE IsNil(v) -> bNull
    [] T.k = "bool" -> IF v.b THEN bTrue ELSE bFalse
    [] T.k = "str" -> EncStr(v.s)
    [] T.k = "num" -> IF v.s = <<>> THEN bNull ELSE v.s
    [] T.k \in {"int", "uint"} -> v.i
    [] T.k = "float" -> Lit(v.f, T.bits)
    [] T.k = "any" -> EncAny(v.a)
    [] T.k = "ptr" -> Enc(T.e, v.p)
    [] T.k = "slice" -> <<91>> \o Commas([i \in 1..Len(v.sl) |-> Enc(T.e, v.sl[i])]) \o <<93>>
    [] T.k = "arr" -> <<91>> \o Commas([i \in 1..T.n |-> Enc(T.e, v.ar[i])]) \o <<93>>
    [] T.k = "map" -> LET K == SetToSeq(DOMAIN v.mf)
                      IN <<123>> \o Commas([i \in 1..Len(K) |-> EncStr(K[i]) \o <<58>> \o Enc(T.e, v.mf[K[i]])]) \o <<125>>
    [] T.k = "struct" ->
         LET F == SelectSeq([i \in 1..Len(T.f) |-> i], LAMBDA i : Reachable(T, i))
         IN <<123>> \o Commas([h \in 1..Len(F) |->
               EncStr(T.f[F[h]].n) \o <<58>> \o
               (IF T.f[F[h]].q THEN EncStr(Enc(T.f[F[h]].t, v.st[F[h]])) ELSE Enc(T.f[F[h]].t, v.st[F[h]]))]) \o <<125>>

C01_RoundTrip ==
  R0.ok /\ ~Custom(t0) =>
    LET r == Call(t0, Default, Enc(t0, R0.v), FL, NoOpts) IN r.ok /\ r.v = R0.v

(***************************************************************************)
(* C02: acceptance, without values.                                        *)
(***************************************************************************)
Elems(p) == {q \in (p + 1)..(Toks[p].e - 1) :
               \A y \in (p + 1)..(q - 1) : Toks[y].e < q}        \* elements of the array at p
Keys(p)  == {q \in (p + 1)..(Toks[p].e - 1) :
               Toks[q].k = "k" /\ \A y \in (p + 1)..(q - 1) : Toks[y].e < q}
RankIn(p, q) == Cardinality({y \in Elems(p) : y < q})
Finite(p) == \A q \in p..Toks[p].e : Toks[q].k = "n" => Float(C0, TxtOf(C0, q), 64) # "range"

FitsQuoted(T, p) ==
  \/ Toks[p].k = "z"
  \/ /\ Toks[p].k = "s"
     /\ LET b == Unescape(BodyOf(C0, p)) IN
        CASE T.k = "bool" -> b \in {bTrue, bFalse}
          [] T.k = "str" -> LET l == Lex(b) IN l.ok /\ Len(l.tk) = 1 /\ l.tk[1].k = "s" /\ l.tk[1].i = 0 /\ l.tk[1].j = Len(b)
          [] T.k \in {"int", "uint"} -> LET l == Lex(b) IN
               /\ l.ok /\ Len(l.tk) = 1 /\ l.tk[1].k = "n" /\ l.tk[1].i = 0 /\ l.tk[1].j = Len(b)
               /\ ~\E i \in 1..Len(b) : b[i] \in {46, 69, 101}
               /\ (IF T.k = "int" THEN FitsInt(b, T.bits) ELSE FitsUint(b, T.bits))
          [] T.k = "float" -> IsNumLit(b) /\ Float(C0, b, T.bits) # "range"

RECURSIVE Fits(_, _)
Fits(t, p) ==
  LET T == Types[t]
      k == Toks[p].k
      txt == TxtOf(C0, p)
      IntTok == k = "n" /\ ~\E i \in 1..Len(txt) : txt[i] \in {46, 69, 101}
  IN
  CASE T.k = "ju" -> IF T.h = "nest" THEN Fits(T.e, p) ELSE Refusal(txt) = ""
    [] k = "z" -> TRUE
    [] T.k = "bool" -> k \in {"t", "f"}
    [] T.k = "str"  -> k = "s"
    [] T.k = "num"  -> k = "n" \/ (k = "s" /\ IsNumLit(Unescape(BodyOf(C0, p))))
    [] T.k = "int"  -> IntTok /\ FitsInt(txt, T.bits)
    [] T.k = "uint" -> IntTok /\ FitsUint(txt, T.bits)
    [] T.k = "float" -> k = "n" /\ Float(C0, txt, T.bits) # "range"
    [] T.k = "any"  -> Finite(p)
    [] T.k = "tu"   -> k = "s" /\ Refusal(Unescape(BodyOf(C0, p))) = ""
    [] T.k = "ptr"  -> Fits(T.e, p)
    [] T.k = "slice" -> k = "a" /\ \A q \in Elems(p) : Fits(T.e, q)
    [] T.k = "arr"  -> k = "a" /\ \A q \in Elems(p) : RankIn(p, q) < T.n => Fits(T.e, q)
    [] T.k = "map"  -> k = "o" /\ \A q \in Keys(p) : KeyAt(C0, T.kd, q).ok /\ Fits(T.e, q + 1)
    [] T.k = "struct" -> k = "o" /\ \A q \in Keys(p) :
                           LET f == FieldOf(T, C0, q)
                           IN f # 0 => IF T.f[f].q THEN FitsQuoted(Types[T.f[f].t], q + 1) ELSE Fits(T.f[f].t, q + 1)

C02_Fits == R0.ok = Fits(t0, 1)
\* What the variable holds beforehand has no influence on acceptance.
C02_PriorIndependent ==
  IF R0.ok THEN R1.ok ELSE ~R1.ok /\ R1.cls = R0.cls /\ R1.ix = R0.ix

(***************************************************************************)
(* C03: an error is the first there is, and is found at a token.           *)
(***************************************************************************)
WithDU == [NoOpts EXCEPT !.du = TRUE]
ErrLaw(o) ==
  LET r == Call(t0, Default, Text0, FL, o) IN
  ~r.ok =>
    /\ \E p \in 1..Len(Toks) :
         /\ Toks[p].i = r.ix
         \* ... and it stays the same whatever follows the value there
         /\ LET to == Toks[Toks[IF Toks[p].k = "k" THEN p + 1 ELSE p].e].j
                pre == SubSeq(Text0, 1, to)
            IN Call(t0, Default, pre \o Completion(Lexed(pre)), FL, o) = r
    \* What precedes it is in order.
    /\ LET pre == SubSeq(Text0, 1, r.ix)
           q == Call(t0, Default, pre \o Completion(Lexed(pre)), FL, o)
       IN q.ok \/ q.ix >= r.ix
C03_FirstError == ErrLaw(NoOpts)
C03_FirstErrorStrict == ErrLaw(WithDU)

(***************************************************************************)
(* C13: a value is as deep as its text.                                    *)
(***************************************************************************)
RECURSIVE DepthOf(_)
DepthOf(v) ==
  CASE IsNil(v) -> 0
    [] "a" \in DOMAIN v -> DepthOf(v.a)
    [] "sl" \in DOMAIN v -> 1 + Max({0} \cup {DepthOf(v.sl[i]) : i \in 1..Len(v.sl)})
    [] "mf" \in DOMAIN v -> 1 + Max({0} \cup {DepthOf(v.mf[k]) : k \in DOMAIN v.mf})
    [] OTHER -> 0
Inside(p) == {q \in 1..p : Toks[q].k \in {"o", "a"} /\ Toks[q].e >= p}
C13_Depth == TT.k = "any" /\ R0.ok =>
               LET Dup == \E p, q \in 1..Len(Toks) : p < q /\ Toks[p].k = "k" /\ Toks[q].k = "k"
                   d == Max({Cardinality(Inside(p)) : p \in 1..Len(Toks)})
               IN DepthOf(R0.v) <= d /\ (~Dup => DepthOf(R0.v) = d)

(***************************************************************************)
(* C14: white space doesn't matter.                                        *)
(***************************************************************************)
RECURSIVE Spaced(_, _)
Spaced(p, at) ==      \* the text from offset at on, tokens from p on not yet done
  IF p > Len(Toks) THEN <<32>> \o SubSeq(Text0, at + 1, Len(Text0)) \o <<10>>
  ELSE LET T == Toks[p]
           end == IF T.k \in {"o", "a"} THEN T.i + 1 ELSE T.j
       IN SubSeq(Text0, at + 1, T.i) \o <<32, 9>> \o SubSeq(Text0, T.i + 1, end) \o <<13>> \o Spaced(p + 1, end)
C14_WhiteSpace ==
  "ju" \notin Kinds(t0) =>
    LET s == Spaced(1, 0)
        r == Call(t0, Default, s, FL, NoOpts)
        tk == Lex(s).tk
    IN IF R0.ok THEN r.ok /\ r.v = R0.v
       ELSE /\ ~r.ok /\ r.cls = R0.cls
            /\ \E p \in 1..Len(Toks) : Toks[p].i = R0.ix /\ tk[p].i = r.ix

(***************************************************************************)
(* C08: what isn't mentioned stays, and so does what exists.               *)
(***************************************************************************)
C08_Unmentioned ==
  R1.ok /\ Toks[1].k = "o" =>
    CASE TT.k = "struct" ->
           LET Hit == {FieldOf(TT, C0, q) : q \in Keys(1)}
           IN \A f \in (1..Len(TT.f)) \ Hit : R1.v.st[f] = V1.st[f]
      [] TT.k = "map" ->
           LET Ks == {KeyAt(C0, TT.kd, q).v : q \in Keys(1)}
           IN /\ R1.v.id = V1.id
              /\ \A k \in DOMAIN V1.mf \ Ks : k \in DOMAIN R1.v.mf /\ R1.v.mf[k] = V1.mf[k]
      [] OTHER -> TRUE
C08_InPlace ==
  R1.ok =>
    CASE TT.k = "ptr" /\ Toks[1].k # "z" -> R1.v.id = V1.id
      [] TT.k = "slice" /\ Toks[1].k = "a" /\ ~Types[TT.e].z ->
           LET n == Cardinality(Elems(1)) IN
           /\ (n \in {1, 2} => R1.v.id = V1.id /\ (n = 1 => R1.v.sp = V1.sp))
           /\ (n > 2 => R1.v.id = FRESH)
      [] OTHER -> TRUE

(***************************************************************************)
(* C16: keys of maps.                                                      *)
(***************************************************************************)
C16_Members ==
  R1.ok /\ TT.k = "map" /\ Toks[1].k = "o" =>
    LET K(q) == KeyAt(C0, TT.kd, q).v
        Lasts == {q \in Keys(1) : ~\E y \in Keys(1) : y > q /\ K(y) = K(q)}
    IN /\ DOMAIN R1.v.mf = DOMAIN V1.mf \cup {K(q) : q \in Keys(1)}
       \* The last member with a key decides, and it alone.
       /\ \A q \in Lasts : LET r == Call(TT.e, Zero(TT.e), TxtOf(C0, q + 1), FL, NoOpts)
                           IN r.ok /\ R1.v.mf[K(q)] = r.v

(***************************************************************************)
(* C18: interfaces.                                                        *)
(***************************************************************************)
RECURSIVE Generic(_, _)
Generic(v, p) ==      \* v is what the value at p becomes
  CASE Toks[p].k = "z" -> v = Nil
    [] Toks[p].k \in {"t", "f"} -> v = [b |-> Toks[p].k = "t"]
    [] Toks[p].k = "s" -> v = [s |-> Unescape(BodyOf(C0, p))]
    [] Toks[p].k = "n" -> v = [f |-> Float(C0, TxtOf(C0, p), 64)]
    [] Toks[p].k = "a" -> /\ Len(v.sl) = Cardinality(Elems(p))
                          /\ \A q \in Elems(p) : Generic(v.sl[RankIn(p, q) + 1].a, q)
    [] Toks[p].k = "o" -> LET K(q) == Unescape(BodyOf(C0, q)) IN
                          /\ DOMAIN v.mf = {K(q) : q \in Keys(p)}
                          /\ \A q \in Keys(p) : (\E y \in Keys(p) : y > q /\ K(y) = K(q)) \/ Generic(v.mf[K(q)].a, q + 1)
C18_Generic == TT.k = "any" /\ R1.ok => IF Toks[1].k = "z" THEN R1.v = Nil ELSE Generic(R1.v.a, 1)

(***************************************************************************)
(* C19: unknown members might as well not be there.                        *)
(***************************************************************************)
Unknown == {q \in Keys(1) : FieldOf(TT, C0, q) = 0}
Without ==
  LET known == SetToSortSeq(Keys(1) \ Unknown, LAMBDA a, b : a < b)
  IN <<123>> \o Commas([i \in 1..Len(known) |->
       TxtOf(C0, known[i]) \o <<58>> \o TxtOf(C0, known[i] + 1)]) \o <<125>>
C19_Skipped ==
  TT.k = "struct" /\ Toks[1].k = "o" =>
    LET r == Call(t0, V1, Without, FL, NoOpts)
    IN r.ok = R1.ok /\ (r.ok => r.v = R1.v) /\ (~r.ok => r.cls = R1.cls)
C19_Refused ==
  TT.k = "struct" /\ Toks[1].k = "o" =>
    LET r == Call(t0, V1, Text0, FL, WithDU) IN
    IF Unknown = {} THEN r.ok => r = R1
    ELSE ~r.ok /\ r.ix <= Toks[CHOOSE q \in Unknown : \A y \in Unknown : q <= y].i

(***************************************************************************)
(* C23: elements, one by one.                                              *)
(***************************************************************************)
C23_Elements ==
  R1.ok /\ Toks[1].k = "a" =>
    CASE TT.k = "slice" ->
           /\ Len(R1.v.sl) = Cardinality(Elems(1))
           /\ \A q \in Elems(1) :
                LET i == RankIn(1, q) + 1
                    base == V1.sl \o V1.sp
                    old == IF i <= Len(base) THEN base[i] ELSE Zero(TT.e)
                    r == Call(TT.e, old, TxtOf(C0, q), FL, NoOpts)
                IN r.ok /\ R1.v.sl[i] = r.v
      [] TT.k = "arr" ->
           \A i \in 1..TT.n :
             IF i > Cardinality(Elems(1)) THEN R1.v.ar[i] = Zero(TT.e)
             ELSE LET q == CHOOSE q \in Elems(1) : RankIn(1, q) = i - 1
                      r == Call(TT.e, V1.ar[i], TxtOf(C0, q), FL, NoOpts)
                  IN r.ok /\ R1.v.ar[i] = r.v
      [] OTHER -> TRUE

(***************************************************************************)
(* C24: null.                                                              *)
(***************************************************************************)
C24_Null ==
  TT.k # "ju" =>
    LET r == Call(t0, V1, bNull, FL, NoOpts)
    IN r.ok /\ r.v = IF TT.k \in {"any", "slice", "map", "ptr"} \/ (TT.k = "tu" /\ TT.nilable) THEN Nil ELSE V1
C24_Pointee ==
  TT.k = "ptr" /\ Toks[1].k # "z" =>
    LET r == Call(TT.e, V1.p, Text0, FL, NoOpts)
        z == Call(TT.e, Zero(TT.e), Text0, FL, NoOpts)
    IN /\ r.ok = R1.ok /\ (r.ok => R1.v.p = r.v)
       /\ z.ok = R0.ok /\ (z.ok => R0.v.p = z.v)
=============================================================================
