-------------------------------- MODULE Syntax --------------------------------
(***************************************************************************)
(* All transitions of the automaton of module JsonText up to a nesting     *)
(* depth: for each of its configurations and each byte (of a given set) a  *)
(* text is printed that leads to the configuration, goes on with the byte  *)
(* and, if the byte is acceptable there, is completed to a document, and   *)
(* for each configuration the text that ends there.                        *)
(***************************************************************************)
EXTENDS JsonText, Json, IOUtils

MaxDepth == atoi(IOEnv.DEPTH)
Tries    == JsonDeserialize(IOEnv.INPUT).bytes    \* sequence of bytes to try everywhere

VARIABLES c, w
vars == <<c, w>>
\* Configurations that behave alike are one.
View == <<c.q, [i \in 1..Len(c.st) |-> c.st[i][1]], IF c.q \in {"s", "sx", "u4", "u3", "u2", "u1", "lt", "lf", "lz"} THEN c.w ELSE <<>>>>

Init == c = LexInit /\ w = <<>>

Out(t) == PrintT("OUT " \o ToJson([s |-> t]))
Alive(b) == Step(c, b).q # "x"
Completed(d, t) == t \o Completion(d)

Tried ==
  /\ Len(c.st) <= MaxDepth
  /\ Out(w)
  /\ \A i \in 1..Len(Tries) :
       LET b == Tries[i] IN
       \* Text that isn't UTF-8 is beyond the specification.
       \/ b >= 128 /\ c.q = "s"
       \/ Out(IF Alive(b) THEN Completed(Step(c, b), Append(w, b)) ELSE Append(w, b))

Next == \E i \in 1..Len(Tries) :
          LET b == Tries[i] IN
          b < 128 /\ Alive(b) /\ c' = Step(c, b) /\ w' = Append(w, b)

Spec == Init /\ [][Next]_vars
=============================================================================
