------------------------------- MODULE JsonText -------------------------------
(***************************************************************************)
(* RFC 8259 as a deterministic pushdown automaton over bytes.              *)
(*                                                                         *)
(* A configuration is a record                                             *)
(*   q   state                                                             *)
(*   st  stack of open containers, each <<"o" or "a", token number>>       *)
(*   tk  tokens recognised so far                                          *)
(*   b   byte offset at which the token being read began                   *)
(*   i   offset of the next byte                                           *)
(*   w   bytes of a literal name still to come, or the string's role       *)
(* Step is the transition relation (a function), Lex folds it over a text. *)
(* A token is [k, i, j, e]: kind, first byte, byte after the last, and for *)
(* containers the number of the closing token (for all others its own).    *)
(* Kinds: o O a A (object/array begin and end), k (key), s (string),       *)
(* n (number), t f z (true, false, null).                                  *)
(***************************************************************************)
EXTENDS Bytes, TLC, SequencesExt

LexInit == [q |-> "v", st |-> <<>>, tk |-> <<>>, b |-> 0, i |-> 0, w |-> <<>>]

LOCAL Fail(c) == [c EXCEPT !.q = "x"]

\* The state after a complete value.
LOCAL Tok(c, k, e) ==
  [c EXCEPT !.tk = Append(@, [k |-> k, i |-> c.b, j |-> e, e |-> Len(c.tk) + 1]),
            !.q = "e"]

LOCAL Open(c, k, q) ==
  [c EXCEPT !.q = q, !.i = @ + 1,
            !.st = Append(@, <<k, Len(c.tk) + 1>>),
            !.tk = Append(@, [k |-> k, i |-> c.i, j |-> c.i + 1, e |-> 0])]

LOCAL Close(c, k, K) ==
  IF c.st = <<>> \/ c.st[Len(c.st)][1] # k THEN Fail(c)
  ELSE LET o == c.st[Len(c.st)][2]
           n == Len(c.tk) + 1
       IN [c EXCEPT !.q = "e", !.i = @ + 1,
                    !.st = SubSeq(@, 1, Len(@) - 1),
                    !.tk = Append([@ EXCEPT ![o].e = n, ![o].j = c.i + 1],
                                  [k |-> K, i |-> c.i, j |-> c.i + 1, e |-> n])]

LOCAL Adv(c, q) == [c EXCEPT !.q = q, !.i = @ + 1]

LOCAL Begin(c, x) ==      \* x begins a value
  CASE x = 123 -> Open(c, "o", "k0")
    [] x = 91  -> Open(c, "a", "v0")
    [] x = 34  -> [c EXCEPT !.q = "s", !.b = c.i, !.i = @ + 1, !.w = <<"s">>]
    [] x = 45  -> [c EXCEPT !.q = "n-", !.b = c.i, !.i = @ + 1]
    [] x = 48  -> [c EXCEPT !.q = "n0", !.b = c.i, !.i = @ + 1]
    [] x >= 49 /\ x <= 57 -> [c EXCEPT !.q = "ni", !.b = c.i, !.i = @ + 1]
    [] x = 116 -> [c EXCEPT !.q = "lt", !.b = c.i, !.i = @ + 1, !.w = Tail(bTrue)]
    [] x = 102 -> [c EXCEPT !.q = "lf", !.b = c.i, !.i = @ + 1, !.w = Tail(bFalse)]
    [] x = 110 -> [c EXCEPT !.q = "lz", !.b = c.i, !.i = @ + 1, !.w = Tail(bNull)]
    [] OTHER -> Fail(c)

\* After a complete value.
LOCAL AfterVal(c, x) ==
  CASE x = 32 \/ x = 10 \/ x = 13 \/ x = 9 -> Adv(c, "e")
    [] x = 125 -> Close(c, "o", "O")
    [] x = 93  -> Close(c, "a", "A")
    [] x = 44  -> IF c.st = <<>> THEN Fail(c)
                  ELSE IF c.st[Len(c.st)][1] = "o" THEN Adv(c, "k") ELSE Adv(c, "v")
    [] OTHER -> Fail(c)

LOCAL KeyBegin(c, x) ==
  IF x = 34 THEN [c EXCEPT !.q = "s", !.b = c.i, !.i = @ + 1, !.w = <<"k">>]
  ELSE IF IsWS(x) THEN Adv(c, c.q) ELSE Fail(c)

LOCAL Literal(c, x, k) ==
  IF x # c.w[1] THEN Fail(c)
  ELSE IF Len(c.w) > 1 THEN [c EXCEPT !.w = Tail(@), !.i = @ + 1]
  ELSE [Tok(c, k, c.i + 1) EXCEPT !.i = @ + 1]

Step(c, x) ==
  CASE c.q = "s" ->      \* inside a string
         IF x = 34 THEN
           IF c.w = <<"k">>
           THEN [Tok(c, "k", c.i + 1) EXCEPT !.q = "c", !.i = @ + 1]
           ELSE [Tok(c, "s", c.i + 1) EXCEPT !.i = @ + 1]
         ELSE IF x = 92 THEN Adv(c, "sx")
         ELSE IF x < 32 THEN Fail(c)
         ELSE [c EXCEPT !.i = @ + 1]
    [] c.q = "sx" ->     \* after a reverse solidus
         IF x \in {34, 92, 47, 98, 102, 110, 114, 116} THEN Adv(c, "s")
         ELSE IF x = 117 THEN Adv(c, "u4") ELSE Fail(c)
    [] c.q = "u4" -> IF IsHex(x) THEN Adv(c, "u3") ELSE Fail(c)
    [] c.q = "u3" -> IF IsHex(x) THEN Adv(c, "u2") ELSE Fail(c)
    [] c.q = "u2" -> IF IsHex(x) THEN Adv(c, "u1") ELSE Fail(c)
    [] c.q = "u1" -> IF IsHex(x) THEN Adv(c, "s") ELSE Fail(c)
    [] c.q = "e" -> AfterVal(c, x)
    [] c.q = "v" -> IF IsWS(x) THEN Adv(c, "v") ELSE Begin(c, x)
    [] c.q = "v0" -> IF IsWS(x) THEN Adv(c, "v0")
                     ELSE IF x = 93 THEN Close(c, "a", "A") ELSE Begin(c, x)
    [] c.q = "k0" -> IF x = 125 THEN Close(c, "o", "O") ELSE KeyBegin(c, x)
    [] c.q = "k" -> KeyBegin(c, x)
    [] c.q = "c" -> IF x = 58 THEN Adv(c, "v")
                    ELSE IF IsWS(x) THEN Adv(c, "c") ELSE Fail(c)
    [] c.q = "ni" ->     \* integer digits
         IF IsDigit(x) THEN [c EXCEPT !.i = @ + 1]
         ELSE IF x = 46 THEN Adv(c, "n.")
         ELSE IF x = 101 \/ x = 69 THEN Adv(c, "ne")
         ELSE AfterVal(Tok(c, "n", c.i), x)
    [] c.q = "n-" -> IF x = 48 THEN Adv(c, "n0")
                     ELSE IF IsDigit(x) THEN Adv(c, "ni") ELSE Fail(c)
    [] c.q = "n0" -> IF x = 46 THEN Adv(c, "n.")
                     ELSE IF x = 101 \/ x = 69 THEN Adv(c, "ne")
                     ELSE AfterVal(Tok(c, "n", c.i), x)
    [] c.q = "n." -> IF IsDigit(x) THEN Adv(c, "nf") ELSE Fail(c)
    [] c.q = "nf" -> IF IsDigit(x) THEN [c EXCEPT !.i = @ + 1]
                     ELSE IF x = 101 \/ x = 69 THEN Adv(c, "ne")
                     ELSE AfterVal(Tok(c, "n", c.i), x)
    [] c.q = "ne" -> IF x = 43 \/ x = 45 THEN Adv(c, "ns")
                     ELSE IF IsDigit(x) THEN Adv(c, "nx") ELSE Fail(c)
    [] c.q = "ns" -> IF IsDigit(x) THEN Adv(c, "nx") ELSE Fail(c)
    [] c.q = "nx" -> IF IsDigit(x) THEN [c EXCEPT !.i = @ + 1]
                     ELSE AfterVal(Tok(c, "n", c.i), x)
    [] c.q = "lt" -> Literal(c, x, "t")
    [] c.q = "lf" -> Literal(c, x, "f")
    [] c.q = "lz" -> Literal(c, x, "z")
    [] OTHER -> c        \* "x": rejected

NumDone(q) == q \in {"n0", "ni", "nf", "nx"}

\* At the end of the text.
LexEnd(c) ==
  IF NumDone(c.q) THEN Tok(c, "n", c.i) ELSE c

(***************************************************************************)
(* The shortest text that makes a document of what was read so far.        *)
(***************************************************************************)
RECURSIVE Closers(_)
Closers(st) == IF st = <<>> THEN <<>>
               ELSE <<IF st[Len(st)][1] = "o" THEN 125 ELSE 93>> \o Closers(SubSeq(st, 1, Len(st) - 1))
LOCAL EndOfString(c) == IF c.w = <<"k">> THEN <<34, 58>> \o bNull ELSE <<34>>
LOCAL AZero == <<48>>
Completion(c) ==
  (CASE c.q = "v" -> bNull
     [] c.q = "k" -> <<34, 63, 34, 58>> \o bNull
     [] c.q = "c" -> <<58>> \o bNull
     [] c.q = "s" -> EndOfString(c)
     [] c.q = "sx" -> <<110>> \o EndOfString(c)
     [] c.q = "u4" -> AZero \o AZero \o AZero \o AZero \o EndOfString(c)
     [] c.q = "u3" -> AZero \o AZero \o AZero \o EndOfString(c)
     [] c.q = "u2" -> AZero \o AZero \o EndOfString(c)
     [] c.q = "u1" -> AZero \o EndOfString(c)
     [] c.q \in {"n-", "n.", "ne", "ns"} -> AZero
     [] c.q \in {"lt", "lf", "lz"} -> c.w
     [] OTHER -> <<>>) \o Closers(c.st)

Accepts(c) == LET d == LexEnd(c) IN d.q = "e" /\ d.st = <<>>

Lex(s) ==
  LET d == LexEnd(FoldLeft(Step, LexInit, s))
  IN [ok |-> d.q = "e" /\ d.st = <<>>, tk |-> d.tk]
=============================================================================
