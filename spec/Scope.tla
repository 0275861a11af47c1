-------------------------------- MODULE Scope --------------------------------
(***************************************************************************)
(* Small-scope enumeration: the documents that can be written for a type   *)
(* with few symbols, shortest first.                                       *)
(*                                                                         *)
(* A state is a type and a prefix of a JSON document, which grows by one   *)
(* symbol per transition: a bracket, a comma, a key with its colon, or a   *)
(* scalar. Which keys and scalars are tried depends on the type. A prefix  *)
(* is completed in the shortest way; if the specification refuses the      *)
(* completed document because of something in the prefix, the prefix isn't *)
(* extended further (what would follow has no effect). The completed       *)
(* documents are printed, then decoded by the real decoder and checked by  *)
(* module Trace.                                                           *)
(***************************************************************************)
EXTENDS Decode, Json, IOUtils

Hdr        == JsonDeserialize(IOEnv.HDR)
HdrTypes   == Hdr.types
HdrFold    == Hdr.fold
FL         == Hdr.fl              \* IEEE values of the literals below
Targets    == JsonDeserialize(IOEnv.INPUT).targets   \* numbers of the types
Budget     == atoi(IOEnv.BUDGET)  \* prefixes per type
MaxDepth   == 5

\* TLA+ strings to bytes.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch]
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
Bs(S) == {B(s) : s \in S}
Quote(b) == <<34>> \o b \o <<34>>

(***************************************************************************)
(* The symbols of a type: scalars and keys for all types within it. They   *)
(* are divided into main ones and variants. After a variant only a few     *)
(* more symbols follow, main ones.                                         *)
(***************************************************************************)
MaxLit(T) == IF T.k = "int" THEN MaxI(T.bits) ELSE MaxU(T.bits)
Succ(b) == [b EXCEPT ![Len(b)] = @ + 1]
Ints(T) == {MaxLit(T), IF T.k = "int" THEN <<45>> \o MinI(T.bits) ELSE B("-1"), Succ(MaxLit(T))} \cup Bs({"-0", "1.0"})
Main(T) ==
  CASE T.k = "bool"  -> Bs({"true"})
    [] T.k \in {"int", "uint"} -> Bs({"7"})
    [] T.k = "float" -> Bs({"0.1"})
    [] T.k = "str"   -> Bs({"\"a\""})
    [] T.k = "num"   -> Bs({"-1.50E2"})
    [] T.k = "ju"    -> Bs({"\"q\""})
    [] T.k = "tu"    -> Bs({"\"t\\u0074\""})
    [] T.k = "any"   -> Bs({"\"x\""})
    [] OTHER -> {}
Variants(T) ==
  CASE T.k = "bool"  -> Bs({"false"})
    [] T.k \in {"int", "uint"} -> Ints(T)
    [] T.k = "float" -> Bs({"-0.0", "1e39", "1e400"})
    [] T.k = "str"   -> Bs({"\"b\\n\"", "\"\""})
    [] T.k = "num"   -> Bs({"\"3\"", "\"3x\"", "-0"})
    [] T.k = "ju"    -> Bs({"13", "false", "[]", "{\"a\":[1]}"})
    [] T.k = "tu"    -> Bs({"\"zz\"", "\"\""})
    [] T.k = "any"   -> Bs({"2", "1e400", "true", "\"\\ud83d\\ude00\""})
    [] OTHER -> {}
Payload(T) == IF T.k = "str" THEN Bs({"\"\\\"y\\\"\""}) ELSE {Quote(b) : b \in Main(T)}
Payloads(T) == (IF T.k = "str" THEN Bs({"\"y\"", "\"\\\"\""}) ELSE {Quote(b) : b \in Variants(T)}) \cup Bs({"\"null\"", "\" 7\""})
Upper(b) == [i \in 1..Len(b) |-> IF b[i] >= 97 /\ b[i] <= 122 THEN b[i] - 32 ELSE b[i]]
MapKey(kd) ==
  CASE kd.k = "str"  -> Bs({"a", "\\u0062"})
    [] kd.k \in {"int", "uint"} -> Bs({"7", "0"})
    [] kd.k = "tu"   -> Bs({"k", "kk"})
    [] OTHER -> {}
MapKeys(kd) ==
  CASE kd.k = "str"  -> Bs({""})
    [] kd.k = "int"  -> {MaxI(kd.bits), Succ(MaxI(kd.bits))} \cup Bs({"-0", "x"})
    [] kd.k = "uint" -> {MaxU(kd.bits), Succ(MaxU(kd.bits))} \cup Bs({"-1", "x"})
    [] kd.k = "tu"   -> Bs({"\\u006B", "zz"})
    [] OTHER -> {}
\* The first few fields, those with a name that needs no escaping.
FieldNames(T) == {T.f[i].n : i \in {j \in 1..(IF Len(T.f) > 5 THEN 5 ELSE Len(T.f)) :
                                      \A h \in 1..Len(T.f[j].n) : T.f[j].n[h] >= 32 /\ T.f[j].n[h] \notin {34, 92}}}

Symbols(t) ==
  LET C == Closure({t})
      Q == UNION {{Types[Types[u].f[i].t] : i \in {j \in 1..Len(Types[u].f) : Types[u].f[j].q}}
                  : u \in {y \in C : Types[y].k = "struct"}}
      M == {Types[u].kd : u \in {y \in C : Types[y].k = "map"}}
      N == UNION {FieldNames(Types[u]) : u \in {y \in C : Types[y].k = "struct"}}
      K == UNION {MapKey(kd) : kd \in M} \cup N
      L == UNION {MapKeys(kd) : kd \in M} \cup {Upper(n) : n \in N} \cup Bs({"?"})
      KeyOf(b) == Quote(b) \o <<58>>
      Ms == UNION {Main(Types[u]) : u \in C} \cup UNION {Payload(T) : T \in Q} \cup {bNull}
      Vs == UNION {Variants(Types[u]) : u \in C} \cup UNION {Payloads(T) : T \in Q} \cup Bs({"true", "1"})
  IN [main |-> Ms, vars |-> Vs \ Ms,
      keys |-> {KeyOf(k) : k \in IF K = {} THEN Bs({"a"}) ELSE K},
      kvars |-> {KeyOf(k) : k \in L \ K}]
Sym == [i \in 1..Len(Targets) |-> Symbols(Targets[i])]

(***************************************************************************)
(* Prefixes.                                                               *)
(***************************************************************************)
VARIABLES x,      \* index into Targets
          w,      \* the prefix
          fuel    \* how many symbols may follow
vars == <<x, w, fuel>>

Plenty == 99

Lexed(b) == FoldLeft(Step, LexInit, b)

Open(c) == IF Len(c.st) < MaxDepth THEN {<<91>>, <<123>>} ELSE {}
Mains(c) ==
  CASE c.q = "v"  -> Sym[x].main \cup Open(c)
    [] c.q = "v0" -> Sym[x].main \cup Open(c) \cup {<<93>>}
    [] c.q = "k"  -> Sym[x].keys
    [] c.q = "k0" -> Sym[x].keys \cup {<<125>>}
    [] c.q = "e" \/ NumDone(c.q) ->
         IF c.st = <<>> THEN {}
         ELSE {<<44>>, <<IF c.st[Len(c.st)][1] = "o" THEN 125 ELSE 93>>}
    [] OTHER -> {}
Vars(c) ==
  CASE c.q \in {"v", "v0"} -> Sym[x].vars
    [] c.q \in {"k", "k0"} -> Sym[x].kvars
    [] OTHER -> {}

NoOpts == [du |-> FALSE, dn |-> FALSE, dc |-> FALSE]
Default == LET t == Targets[x] IN Zero(t)

\* The outcome of decoding the completed document into a zero value.
Outcome(c) == Call(Targets[x], Default, w \o Completion(c), FL, NoOpts)
Dead(r) == ~r.ok /\ r.ix < Len(w)

Count == TLCGet(x)
Init == /\ x \in 1..Len(Targets)
        /\ w = <<>>
        /\ fuel = Plenty
        /\ TLCSet(x, 0)

\* Each prefix is printed once, completed, when it's met first.
Emit ==
  LET c == Lexed(w)
      r == Outcome(c)
  IN
  /\ TLCSet(x, Count + 1)
  /\ Count <= Budget
  /\ PrintT("OUT " \o ToJson([t |-> Targets[x], s |-> w \o Completion(c), ok |-> r.ok]))
  /\ (w # <<>> => ~Dead(r))

Next ==
  LET c == Lexed(w) IN
  /\ UNCHANGED x
  /\ fuel > 0
  /\ \/ \E s \in Mains(c) : w' = w \o s /\ fuel' = IF fuel = Plenty THEN Plenty ELSE fuel - 1
     \/ /\ fuel = Plenty
        /\ \E s \in Vars(c) : w' = w \o s /\ fuel' = 2

Spec == Init /\ [][Next]_vars
=============================================================================
