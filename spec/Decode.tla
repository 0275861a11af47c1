------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* What decoding a JSON text into a Go value means: a function from        *)
(*   (type, value held before, text, options)                              *)
(* to either the value held afterwards or an error class and byte index.   *)
(*                                                                         *)
(* Types is a sequence of type descriptors; a type is its number, so that  *)
(* recursive types are cyclic references. A descriptor has a field k:      *)
(*   bool str num any                                                      *)
(*   int uint float      with bits                                         *)
(*   slice arr ptr       with e (element) and, for arr, n                  *)
(*   map                 with e and kd, the key's descriptor               *)
(*   struct              with f, the sequence of its fields                *)
(*   ju tu               types that unmarshal themselves, with h, the      *)
(*                       behaviour of the methods (written in types.go),   *)
(*                       nilable, whether it's a slice or map, and e       *)
(* and z, whether its values occupy no memory. A field has n (JSON name),  *)
(* g (folded name), t (type), q (has the `string` option and a type it     *)
(* applies to) and x (not decodable: unexported or tagged "-").            *)
(*                                                                         *)
(* Values (all records, so that any two can be compared):                  *)
(*   [b |-> BOOLEAN]  [i |-> decimal digits]  [f |-> IEEE bits in hex]     *)
(*   [s |-> bytes]    [u |-> sequence of payloads seen by an unmarshaler]  *)
(*   [n |-> value]    an unmarshaler that holds a value                    *)
(*   [nil |-> 1]      nil slice, map, pointer or interface                 *)
(*   [sl |-> elements, sp |-> values in the spare capacity, id]            *)
(*   [ar |-> elements]  [st |-> field values]  [a |-> value in interface]  *)
(*   [m |-> sequence of [k, v], id]   observed maps                        *)
(*   [mf |-> function from keys to values, id]   computed maps             *)
(*   [p |-> value, id]                                                     *)
(* id identifies the memory of a pointee, map or backing array: a positive *)
(* number for memory that was reachable from the destination before the    *)
(* call, a negative one for fresh memory, 0 where identity means nothing.  *)
(***************************************************************************)
EXTENDS Bytes, JsonText, Numbers, Text, TLC

CONSTANTS Types, FoldTab, Sharing

Nil == [nil |-> 1]
IsNil(v) == "nil" \in DOMAIN v

Ok(v, p)    == [ok |-> TRUE, v |-> v, p |-> p]
Er(cls, ix) == [ok |-> FALSE, cls |-> cls, ix |-> ix]

FRESH == -1

(***************************************************************************)
(* Strings. When Sharing is on, a string says where it is in the text that *)
(* is being decoded: at offset r, elsewhere (-1), or perhaps either (-2).  *)
(***************************************************************************)
Str(b, r) == IF Sharing THEN [s |-> b, r |-> r] ELSE [s |-> b]
\* The string written as bytes i..j of the text of call c, unescaped.
StrAt(c, i, j) ==
  LET raw == Slice(c.s, i, j)
      b   == Unescape(raw)
  IN Str(b, IF ~Sharing \/ b = <<>> \/ c.src = "bytes" THEN -1
            ELSE IF c.src = "any" \/ b # raw THEN -2
            ELSE i)

RECURSIVE Zero(_)
Zero(t) ==
  LET T == Types[t] IN
  CASE T.k = "bool"   -> [b |-> FALSE]
    [] T.k = "str"    -> Str(<<>>, -1)
    [] T.k = "num"    -> Str(<<>>, -1)
    [] T.k = "int"    -> [i |-> <<48>>]
    [] T.k = "uint"   -> [i |-> <<48>>]
    [] T.k = "float"  -> [f |-> IF T.bits = 32 THEN "00000000" ELSE "0000000000000000"]
    [] T.k = "arr"    -> [ar |-> [i \in 1..T.n |-> Zero(T.e)]]
    [] T.k = "struct" -> [st |-> [i \in 1..Len(T.f) |-> Zero(T.f[i].t)]]
    [] T.k = "ju" \/ T.k = "tu" ->
         (CASE T.nilable -> Nil
            [] T.h \in {"log", "unit"} -> [u |-> <<>>]
            [] T.h = "shift" -> [u |-> << <<>>, <<>> >>]
            [] T.h \in {"len", "len8"} -> [i |-> <<48>>]
            [] T.h = "flip" -> [b |-> FALSE]
            [] T.h = "nest" -> [n |-> Zero(T.e)]
            [] OTHER        -> [s |-> <<>>])
    [] OTHER -> Nil      \* any, slice, map, ptr

(***************************************************************************)
(* Unmarshalers of the test types (harness/core/types.go): whether they    *)
(* refuse a payload or panic, and the value afterwards if they don't.      *)
(***************************************************************************)
RECURSIVE SumOf(_, _), DecDigits(_)
SumOf(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + SumOf(b, i + 1)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE DecDigits(n \div 10) \o <<48 + (n % 10)>>

Refusal(b) ==
  LET n == SumOf(b, 1) + 3 * Len(b)
  IN IF n % 61 = 7 \/ b = <<49, 51>> \/ b = <<122, 122>> THEN "hook"
     ELSE IF n % 199 = 31 THEN "hookpanic"
     ELSE ""

LogOf(v) == IF IsNil(v) THEN <<>> ELSE v.u
CallHook(T, v, b) ==
  CASE T.h = "log"   -> [u |-> Append(LogOf(v), b)]
    [] T.h = "cat"   -> [s |-> v.s \o <<60>> \o b \o <<62>>]
    [] T.h = "wrap"  -> [s |-> <<60>> \o b \o <<62>>]
    [] T.h = "len"   -> [i |-> DecDigits(Len(b))]
    [] T.h = "len8"  -> [i |-> DecDigits(Len(b) % 256)]
    [] T.h = "vlen"  -> IF IsNil(v) THEN Nil ELSE [i |-> DecDigits(Len(b))]
    [] T.h = "flip"  -> [b |-> ~v.b]
    [] T.h = "shift" -> [u |-> <<v.u[2], b>>]
    [] T.h = "unit"  -> [u |-> <<>>]

(***************************************************************************)
(* c is the call: [s, tk, fl, o, src] - the text, its tokens, the table of *)
(* the IEEE values of its number literals, the options, what holds it.     *)
(***************************************************************************)
TxtOf(c, p) == Slice(c.s, c.tk[p].i, c.tk[p].j)
BodyOf(c, p) == Slice(c.s, c.tk[p].i + 1, c.tk[p].j - 1)   \* between the quotes
StringAt(c, p) == StrAt(c, c.tk[p].i + 1, c.tk[p].j - 1)
At(c, p) == c.tk[p].i
After(c, p) == c.tk[p].e + 1

Float(c, lit, bits) ==
  LET r == c.fl[CHOOSE x \in 1..Len(c.fl) : c.fl[x].l = lit]
  IN IF bits = 32 THEN r.f32 ELSE r.f64

\* Number of elements of the array, or members of the object, at p.
RECURSIVE CountFrom(_, _, _, _)
CountFrom(c, q, end, n) == IF q >= end THEN n ELSE CountFrom(c, After(c, q), end, n + 1)
NumElems(c, p) == CountFrom(c, p + 1, c.tk[p].e, 0)

(***************************************************************************)
(* Interfaces: the generic representation. A number out of the range of    *)
(* float64 has none.                                                       *)
(***************************************************************************)
BAD == [bad |-> 1]
IsBad(v) == "bad" \in DOMAIN v

RECURSIVE AnyAt(_, _), AnyElems(_, _, _, _), AnyMembers(_, _, _, _)
AnyAt(c, p) ==
  LET k == c.tk[p].k IN
  CASE k = "z" -> Nil
    [] k = "t" -> [b |-> TRUE]
    [] k = "f" -> [b |-> FALSE]
    [] k = "s" -> StringAt(c, p)
    [] k = "n" -> LET x == Float(c, TxtOf(c, p), 64)
                  IN IF x = "range" THEN BAD ELSE [f |-> x]
    [] k = "a" -> AnyElems(c, p + 1, c.tk[p].e, <<>>)
    [] k = "o" -> AnyMembers(c, p + 1, c.tk[p].e, << >>)
AnyElems(c, q, end, acc) ==
  IF q >= end THEN [sl |-> acc, sp |-> <<>>, id |-> IF acc = <<>> THEN 0 ELSE FRESH]
  ELSE LET v == AnyAt(c, q)
       IN IF IsBad(v) THEN BAD ELSE AnyElems(c, After(c, q), end, Append(acc, [a |-> v]))
AnyMembers(c, q, end, f) ==
  IF q >= end THEN [mf |-> f, id |-> FRESH]
  ELSE LET v == AnyAt(c, q + 1)
       IN IF IsBad(v) THEN BAD
          ELSE AnyMembers(c, After(c, q + 1), end, (Unescape(BodyOf(c, q)) :> [a |-> v]) @@ f)

(***************************************************************************)
(* Struct fields: the exact name wins, else the first field with the same  *)
(* folded name. 0 if there is none.                                        *)
(***************************************************************************)
FieldOf(T, c, q) ==
  LET raw == BodyOf(c, q)
      key == IF c.o.dn THEN raw ELSE Unescape(raw)
      F == {x \in 1..Len(T.f) : ~T.f[x].x}
      E == {x \in F : T.f[x].n = key}
      fkey == Fold(key, FoldTab)
      G == IF c.o.dc THEN {} ELSE {x \in F : T.f[x].g = fkey}
      First(S) == CHOOSE x \in S : \A y \in S : x <= y
  IN IF E # {} THEN First(E) ELSE IF G # {} THEN First(G) ELSE 0

(***************************************************************************)
(* Map keys.                                                               *)
(***************************************************************************)
KeyAt(c, kd, q) ==      \* [ok, v] with v the key in its canonical form, or [ok, cls]
  LET txt == Unescape(BodyOf(c, q)) IN
  CASE kd.k = "str" -> [ok |-> TRUE, v |-> txt]
    [] kd.k = "int" -> IF IsIntLit(txt) /\ FitsInt(txt, kd.bits)
                       THEN [ok |-> TRUE, v |-> Canon(txt)]
                       ELSE [ok |-> FALSE, cls |-> "unexpected"]
    [] kd.k = "uint" -> IF IsIntLit(txt) /\ FitsUint(txt, kd.bits)
                       THEN [ok |-> TRUE, v |-> txt]
                       ELSE [ok |-> FALSE, cls |-> "unexpected"]
    [] kd.k = "tu" ->
         IF Refusal(txt) # "" THEN [ok |-> FALSE, cls |-> Refusal(txt)]
         ELSE LET r == CallHook(kd, [b |-> FALSE], txt)
              IN [ok |-> TRUE, v |-> CASE "s" \in DOMAIN r -> r.s
                                       [] "i" \in DOMAIN r -> r.i
                                       [] "b" \in DOMAIN r -> bTrue
                                       [] OTHER -> <<>>]

\* An observed map (a sequence of pairs) as a function.
RECURSIVE PairsFun(_, _)
PairsFun(s, i) ==
  IF i > Len(s) THEN << >> ELSE (s[i].k :> s[i].v) @@ PairsFun(s, i + 1)
MapFun(v) == IF "mf" \in DOMAIN v THEN v.mf ELSE PairsFun(v.m, 1)

(***************************************************************************)
(* The decoding function. Dec(c, t, v, p) decodes the value at token p     *)
(* into a variable of type t that holds v.                                 *)
(***************************************************************************)
RECURSIVE Dec(_, _, _, _), DecElems(_, _, _, _, _, _), DecArr(_, _, _, _, _, _),
          DecMembers(_, _, _, _, _), DecFields(_, _, _, _, _)

Unexpected(c, p) == Er("unexpected", At(c, p))
NoOptions == [du |-> FALSE, dn |-> FALSE, dc |-> FALSE]

\* The value of a field with the `string` option.
DecQuoted(c, t, v, p) ==
  LET T == Types[t]
      txt == Unescape(BodyOf(c, p))
  IN IF c.tk[p].k = "z" THEN Ok(v, p + 1)
     ELSE IF c.tk[p].k # "s" THEN Unexpected(c, p)
     ELSE CASE T.k = "bool" -> IF txt = bTrue THEN Ok([b |-> TRUE], p + 1)
                               ELSE IF txt = bFalse THEN Ok([b |-> FALSE], p + 1)
                               ELSE Unexpected(c, p)
            [] T.k = "str" -> IF IsStrLit(txt)
                              THEN Ok(Str(Unescape(SubSeq(txt, 2, Len(txt) - 1)), IF Len(txt) > 2 /\ Sharing /\ c.src # "bytes" THEN -2 ELSE -1), p + 1)
                              ELSE Unexpected(c, p)
            [] T.k = "int" -> IF IsIntLit(txt) /\ FitsInt(txt, T.bits)
                              THEN Ok([i |-> Canon(txt)], p + 1) ELSE Unexpected(c, p)
            [] T.k = "uint" -> IF IsIntLit(txt) /\ FitsUint(txt, T.bits)
                              THEN Ok([i |-> txt], p + 1) ELSE Unexpected(c, p)
            [] T.k = "float" -> IF ~IsNumLit(txt) THEN Unexpected(c, p)
                              ELSE LET x == Float(c, txt, T.bits)
                                   IN IF x = "range" THEN Er("num", At(c, p))
                                      ELSE Ok([f |-> x], p + 1)

Dec(c, t, v, p) ==
  LET T == Types[t]
      k == c.tk[p].k
  IN
  CASE T.k = "ju" ->
         IF T.h = "nest"    \* decodes its payload with a decoder of its own
         THEN LET r == Dec([c EXCEPT !.o = NoOptions, !.src = "any"], T.e, v.n, p)
              IN IF r.ok THEN Ok([n |-> r.v], r.p) ELSE Er(r.cls, At(c, p))
         ELSE LET b == TxtOf(c, p)
              IN IF Refusal(b) # "" THEN Er(Refusal(b), At(c, p))
                 ELSE Ok(CallHook(T, v, b), After(c, p))
    [] k = "z" ->
         Ok(IF T.k \in {"any", "slice", "map", "ptr"} \/ (T.k = "tu" /\ T.nilable) THEN Nil ELSE v, p + 1)
    [] T.k = "ptr" ->
         IF IsNil(v)
         THEN LET r == Dec(c, T.e, Zero(T.e), p)
              IN IF r.ok THEN Ok([p |-> r.v, id |-> IF Types[T.e].z THEN 0 ELSE FRESH], r.p) ELSE r
         ELSE LET r == Dec(c, T.e, v.p, p)
              IN IF r.ok THEN Ok([p |-> r.v, id |-> v.id], r.p) ELSE r
    [] T.k = "tu" ->
         IF k # "s" THEN Unexpected(c, p)
         ELSE LET b == Unescape(BodyOf(c, p))
              IN IF Refusal(b) # "" THEN Er(Refusal(b), At(c, p))
                 ELSE Ok(CallHook(T, v, b), p + 1)
    [] T.k = "any" ->
         LET r == AnyAt(c, p)
         IN IF IsBad(r) THEN (IF k = "n" THEN Er("num", At(c, p)) ELSE Unexpected(c, p))
            ELSE Ok([a |-> r], After(c, p))
    [] T.k = "bool" ->
         IF k = "t" \/ k = "f" THEN Ok([b |-> k = "t"], p + 1) ELSE Unexpected(c, p)
    [] T.k = "str" ->
         IF k = "s" THEN Ok(StringAt(c, p), p + 1) ELSE Unexpected(c, p)
    [] T.k = "num" ->
         IF k = "n" THEN Ok(StrAt(c, c.tk[p].i, c.tk[p].j), p + 1)
         ELSE IF k = "s" /\ IsNumLit(Unescape(BodyOf(c, p)))
              THEN Ok(StringAt(c, p), p + 1)
         ELSE Unexpected(c, p)
    [] T.k = "int" ->
         IF k # "n" \/ ~IsIntLit(TxtOf(c, p)) THEN Unexpected(c, p)
         ELSE IF ~FitsInt(TxtOf(c, p), T.bits) THEN Er("overflow", At(c, p))
         ELSE Ok([i |-> Canon(TxtOf(c, p))], p + 1)
    [] T.k = "uint" ->
         IF k # "n" \/ ~IsIntLit(TxtOf(c, p)) \/ IsNeg(TxtOf(c, p)) THEN Unexpected(c, p)
         ELSE IF ~FitsUint(TxtOf(c, p), T.bits) THEN Er("overflow", At(c, p))
         ELSE Ok([i |-> TxtOf(c, p)], p + 1)
    [] T.k = "float" ->
         IF k # "n" THEN Unexpected(c, p)
         ELSE LET x == Float(c, TxtOf(c, p), T.bits)
              IN IF x = "range" THEN Er("num", At(c, p)) ELSE Ok([f |-> x], p + 1)
    [] T.k = "slice" ->
         IF k # "a" THEN Unexpected(c, p)
         ELSE LET n    == NumElems(c, p)
                  nul  == IsNil(v)
                  base == IF nul THEN <<>> ELSE v.sl \o v.sp
                  cap  == Len(base)
                  r    == DecElems(c, T.e, base, p + 1, c.tk[p].e, <<>>)
              IN IF ~r.ok THEN r
                 ELSE IF n = 0 THEN Ok([sl |-> <<>>, sp |-> <<>>, id |-> 0], r.p)
                 ELSE IF Types[T.e].z THEN Ok([sl |-> r.v, sp |-> <<>>, id |-> 0], r.p)
                 ELSE IF n <= cap
                      THEN Ok([sl |-> r.v, sp |-> SubSeq(base, n + 1, cap), id |-> v.id], r.p)
                      ELSE Ok([sl |-> r.v, sp |-> <<>>, id |-> FRESH], r.p)
    [] T.k = "arr" ->
         IF k # "a" THEN Unexpected(c, p)
         ELSE DecArr(c, T, v.ar, p + 1, c.tk[p].e, <<>>)
    [] T.k = "map" ->
         IF k # "o" THEN Unexpected(c, p)
         ELSE LET r == DecMembers(c, T, p + 1, c.tk[p].e, IF IsNil(v) THEN << >> ELSE MapFun(v))
              IN IF ~r.ok THEN r
                 ELSE Ok([mf |-> r.v, id |-> IF IsNil(v) THEN FRESH ELSE v.id], r.p)
    [] T.k = "struct" ->
         IF k # "o" THEN Unexpected(c, p)
         ELSE DecFields(c, T, v.st, p + 1, c.tk[p].e)

DecElems(c, e, base, q, end, acc) ==
  IF q >= end THEN Ok(acc, end + 1)
  ELSE LET i == Len(acc) + 1
           r == Dec(c, e, IF i <= Len(base) THEN base[i] ELSE Zero(e), q)
       IN IF r.ok THEN DecElems(c, e, base, r.p, end, Append(acc, r.v)) ELSE r

\* Elements beyond the length of the array are ignored, missing ones are zeroed.
DecArr(c, T, old, q, end, acc) ==
  IF Len(acc) = T.n THEN Ok([ar |-> acc], end + 1)
  ELSE IF q >= end
       THEN Ok([ar |-> acc \o [i \in 1..(T.n - Len(acc)) |-> Zero(T.e)]], end + 1)
  ELSE LET r == Dec(c, T.e, old[Len(acc) + 1], q)
       IN IF r.ok THEN DecArr(c, T, old, r.p, end, Append(acc, r.v)) ELSE r

\* Values are decoded into fresh memory and replace what the key held before.
DecMembers(c, T, q, end, f) ==
  IF q >= end THEN Ok(f, end + 1)
  ELSE LET key == KeyAt(c, T.kd, q) IN
       IF ~key.ok THEN Er(key.cls, At(c, q))
       ELSE LET r == Dec(c, T.e, Zero(T.e), q + 1)
            IN IF r.ok THEN DecMembers(c, T, r.p, end, (key.v :> r.v) @@ f) ELSE r

DecFields(c, T, st, q, end) ==
  IF q >= end THEN Ok([st |-> st], end + 1)
  ELSE LET x == FieldOf(T, c, q) IN
       IF x = 0 THEN IF c.o.du THEN Er("unknown", At(c, q))
                     ELSE DecFields(c, T, st, After(c, q + 1), end)
       ELSE LET r == IF T.f[x].q THEN DecQuoted(c, T.f[x].t, st[x], q + 1)
                                 ELSE Dec(c, T.f[x].t, st[x], q + 1)
            IN IF r.ok THEN DecFields(c, T, [st EXCEPT ![x] = r.v], r.p, end) ELSE r

(***************************************************************************)
(* A call with text s on a variable of type t holding v.                   *)
(***************************************************************************)
CallWith(t, v, s, fl, o, src) ==      \* src: what the text is held in
  LET L == Lex(s)
  IN IF ~L.ok THEN Er("syntax", -1)
     ELSE Dec([s |-> s, tk |-> L.tk, fl |-> fl, o |-> o, src |-> src], t, v, 1)
Call(t, v, s, fl, o) == CallWith(t, v, s, fl, o, "string")

(***************************************************************************)
(* Does the computed value e describe the observed value a? nf is the      *)
(* first number given to memory that was not reachable before the call.    *)
(* Nothing is said of the spare capacity of fresh arrays, and nothing of   *)
(* the identity of memory that holds nothing.                              *)
(***************************************************************************)
SameId(e, a, nf) == e = 0 \/ (IF e < 0 THEN a >= nf ELSE a = e)

RECURSIVE Same(_, _, _)
SameSeq(e, a, nf) == Len(e) = Len(a) /\ \A i \in 1..Len(e) : Same(e[i], a[i], nf)
Same(e, a, nf) ==
  LET D == DOMAIN e IN
  CASE "st" \in D -> "st" \in DOMAIN a /\ SameSeq(e.st, a.st, nf)
    [] "ar" \in D -> "ar" \in DOMAIN a /\ SameSeq(e.ar, a.ar, nf)
    [] "sl" \in D -> /\ "sl" \in DOMAIN a
                     /\ SameId(e.id, a.id, nf)
                     /\ SameSeq(e.sl, a.sl, nf)
                     /\ (e.id >= 0 => SameSeq(e.sp, a.sp, nf))
    [] "n" \in D  -> "n" \in DOMAIN a /\ Same(e.n, a.n, nf)
    [] "p" \in D  -> "p" \in DOMAIN a /\ SameId(e.id, a.id, nf) /\ Same(e.p, a.p, nf)
    [] "a" \in D  -> IF IsNil(e.a) THEN IsNil(a) ELSE "a" \in DOMAIN a /\ Same(e.a, a.a, nf)
    [] "mf" \in D -> /\ "m" \in DOMAIN a
                     /\ SameId(e.id, a.id, nf)
                     /\ Len(a.m) = Cardinality(DOMAIN e.mf)
                     /\ \A i \in 1..Len(a.m) :
                          a.m[i].k \in DOMAIN e.mf /\ Same(e.mf[a.m[i].k], a.m[i].v, nf)
    [] "m" \in D  -> /\ "m" \in DOMAIN a
                     /\ SameId(e.id, a.id, nf)
                     /\ Len(e.m) = Len(a.m)
                     /\ \A i \in 1..Len(e.m) : e.m[i].k = a.m[i].k /\ Same(e.m[i].v, a.m[i].v, nf)
    [] "s" \in D  -> "s" \in DOMAIN a /\ e.s = a.s /\ ("r" \in D => e.r = -2 \/ e.r = a.r)
    [] OTHER -> e = a

(***************************************************************************)
(* What a call that fails at byte index lim leaves alone: parts of the     *)
(* destination no member or element before lim selects. v is the value     *)
(* before and w the one after the call; nothing is said of parts the text  *)
(* mentions more than once before lim or that are decoded into new memory. *)
(***************************************************************************)
RECURSIVE Kept(_, _, _, _, _, _), KeysBefore(_, _, _, _), ElemsAt(_, _, _)
\* Keys of the object whose members begin at q, as far as they are before lim.
KeysBefore(c, q, end, lim) ==
  IF q >= end \/ At(c, q) >= lim THEN <<>>
  ELSE <<q>> \o KeysBefore(c, After(c, q + 1), end, lim)
ElemsAt(c, q, end) == IF q >= end THEN <<>> ELSE <<q>> \o ElemsAt(c, After(c, q), end)

Kept(c, t, v, w, p, lim) ==
  LET T == Types[t]
      k == c.tk[p].k
  IN
  CASE At(c, p) > lim -> v = w
    [] T.k \in {"ju", "tu"} -> TRUE
    [] At(c, p) = lim -> T.k = "ptr" \/ v = w
    [] T.k = "ptr" /\ k # "z" ->
         IsNil(v) \/ ("p" \in DOMAIN w /\ w.id = v.id /\ Kept(c, T.e, v.p, w.p, p, lim))
    [] T.k = "struct" /\ k = "o" ->
         LET K == KeysBefore(c, p + 1, c.tk[p].e, lim)
             F == [x \in 1..Len(K) |-> FieldOf(T, c, K[x])]
         IN \A x \in 1..Len(T.f) :
              LET M == {m \in 1..Len(K) : F[m] = x} IN
              CASE M = {} -> v.st[x] = w.st[x]
                [] Cardinality(M) = 1 /\ ~T.f[x].q ->
                     \A m \in M : Kept(c, T.f[x].t, v.st[x], w.st[x], K[m] + 1, lim)
                [] OTHER -> TRUE
    [] T.k = "arr" /\ k = "a" ->
         LET E == ElemsAt(c, p + 1, c.tk[p].e)
         IN c.tk[c.tk[p].e].i < lim \/
            \A x \in 1..T.n :
              IF x <= Len(E) THEN Kept(c, T.e, v.ar[x], w.ar[x], E[x], lim)
              ELSE w.ar[x] = v.ar[x] \/ w.ar[x] = Zero(T.e)
    [] T.k = "slice" /\ k = "a" ->
         LET E == ElemsAt(c, p + 1, c.tk[p].e)
         IN c.tk[c.tk[p].e].i < lim \/ IsNil(v) \/ IsNil(w) \/ v.id = 0 \/ w.id # v.id \/
            \A x \in 1..Len(v.sl) :
              (x <= Len(E) /\ x <= Len(w.sl)) => Kept(c, T.e, v.sl[x], w.sl[x], E[x], lim)
    [] T.k = "map" /\ k = "o" /\ ~IsNil(v) ->
         LET K == KeysBefore(c, p + 1, c.tk[p].e, lim)
             S == {KeyAt(c, T.kd, K[x]) : x \in 1..Len(K)}
             N == {x.v : x \in {y \in S : y.ok}}
             old == MapFun(v)
         IN /\ ~IsNil(w) /\ w.id = v.id
            /\ LET new == MapFun(w) IN
               /\ \A x \in DOMAIN old : x \notin N => x \in DOMAIN new /\ new[x] = old[x]
               /\ DOMAIN new \subseteq DOMAIN old \cup N
    [] OTHER -> TRUE

KeptBy(t, v, w, s, o, lim) ==
  LET L == Lex(s)
  IN Kept([s |-> s, tk |-> L.tk, fl |-> <<>>, o |-> o, src |-> "any"], t, v, w, 1, lim)

(***************************************************************************)
(* The calls of unmarshaler methods, in order, that decoding the value at  *)
(* token p into a variable of type t makes until it fails at byte index    *)
(* lim: [m |-> "J" (UnmarshalJSON) or "T" (UnmarshalText), b |-> payload]. *)
(***************************************************************************)
RECURSIVE HookCalls(_, _, _, _), HookElems(_, _, _, _, _, _), HookMembers(_, _, _, _, _), HookFields(_, _, _, _, _)
HookCalls(c, t, p, lim) ==
  LET T == Types[t]
      k == c.tk[p].k
  IN
  CASE At(c, p) > lim -> <<>>
    [] T.k = "ju" ->
         <<[m |-> "J", b |-> TxtOf(c, p)]>> \o
         (IF T.h # "nest" THEN <<>>
          ELSE LET d == [c EXCEPT !.o = NoOptions]
                   r == Dec(d, T.e, Zero(T.e), p)
               IN HookCalls(d, T.e, p, IF r.ok THEN Len(c.s) ELSE r.ix))
    [] k = "z" -> <<>>
    [] T.k = "tu" /\ k = "s" -> <<[m |-> "T", b |-> Unescape(BodyOf(c, p))]>>
    [] T.k = "ptr" -> HookCalls(c, T.e, p, lim)
    [] T.k = "slice" /\ k = "a" -> HookElems(c, T.e, p + 1, c.tk[p].e, -1, lim)
    [] T.k = "arr" /\ k = "a" -> HookElems(c, T.e, p + 1, c.tk[p].e, T.n, lim)
    [] T.k = "map" /\ k = "o" -> HookMembers(c, T, p + 1, c.tk[p].e, lim)
    [] T.k = "struct" /\ k = "o" -> HookFields(c, T, p + 1, c.tk[p].e, lim)
    [] OTHER -> <<>>
HookElems(c, e, q, end, n, lim) ==      \* at most n elements, if n >= 0
  IF q >= end \/ n = 0 THEN <<>>
  ELSE HookCalls(c, e, q, lim) \o HookElems(c, e, After(c, q), end, n - 1, lim)
HookMembers(c, T, q, end, lim) ==
  IF q >= end \/ At(c, q) > lim THEN <<>>
  ELSE (IF T.kd.k = "tu" THEN <<[m |-> "T", b |-> Unescape(BodyOf(c, q))]>> ELSE <<>>)
       \o HookCalls(c, T.e, q + 1, lim) \o HookMembers(c, T, After(c, q + 1), end, lim)
HookFields(c, T, q, end, lim) ==
  IF q >= end \/ At(c, q) > lim THEN <<>>
  ELSE LET x == FieldOf(T, c, q)
       IN (IF x = 0 \/ (x > 0 /\ T.f[x].q) THEN <<>> ELSE HookCalls(c, T.f[x].t, q + 1, lim))
          \o HookFields(c, T, After(c, q + 1), end, lim)

CalledHooks(t, s, fl, o, lim) ==
  LET L == Lex(s)
  IN IF ~L.ok THEN <<>>
     ELSE HookCalls([s |-> s, tk |-> L.tk, fl |-> fl, o |-> o, src |-> "any"], t, 1, lim)

(***************************************************************************)
(* Which types decoders can be made for: [bad, tag], whether an            *)
(* unsupported type is part of t, and whether a field of t has the         *)
(* `string` option without having any of the types it applies to.          *)
(***************************************************************************)
RECURSIVE Closure(_)
Parts(t) ==
  LET T == Types[t] IN
  CASE T.k \in {"slice", "arr", "ptr", "map"} -> {T.e}
    [] T.k = "struct" -> {T.f[i].t : i \in {j \in 1..Len(T.f) : ~T.f[j].x}}
    [] OTHER -> {}
Closure(S) == LET N == S \cup UNION {Parts(t) : t \in S} IN IF N = S THEN S ELSE Closure(N)

\* Types that contain themselves without any struct in between.
RECURSIVE Bare(_)
Bare(S) == LET N == S \cup UNION {Parts(t) : t \in {u \in S : Types[u].k # "struct"}}
           IN IF N = S THEN S ELSE Bare(N)
Infinite(t) == Types[t].k # "struct" /\ t \in Bare(Parts(t))

UnsupportedType(t) == \E u \in Closure({t}) :
  \/ Types[u].k \in {"bad", "iface"}
  \/ Types[u].k = "map" /\ Types[u].kd.k = "bad"
  \/ Infinite(u)
UnsupportedTag(t) == \E u \in Closure({t}) :
  Types[u].k = "struct" /\ \E i \in 1..Len(Types[u].f) : Types[u].f[i].qt /\ ~Types[u].f[i].q
=============================================================================
