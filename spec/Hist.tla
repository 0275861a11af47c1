--------------------------------- MODULE Hist ---------------------------------
(***************************************************************************)
(* Histories: the values a variable can come to hold when documents of a   *)
(* small set are decoded into it one after another, and all the calls that *)
(* can be made with such a value (with everything it refers to, and with   *)
(* what the spare capacity of its slices still holds).                     *)
(*                                                                         *)
(* A state is a type and a value of it. Every transition is a successful   *)
(* call. For each reachable state and each document a history is printed   *)
(* that leads there along the shortest path, makes the call and, if the    *)
(* call has to fail, goes on with a document that fits. The real decoder   *)
(* executes the histories and module Trace checks what it did.             *)
(***************************************************************************)
EXTENDS Decode, Json, IOUtils

Hdr        == JsonDeserialize(IOEnv.HDR)
HdrTypes   == Hdr.types
HdrFold    == Hdr.fold
FL         == Hdr.fl
Input      == JsonDeserialize(IOEnv.INPUT).docs   \* [t, d]: type and documents
Budget     == atoi(IOEnv.BUDGET)                  \* values per type

NoOpts == [du |-> FALSE, dn |-> FALSE, dc |-> FALSE]

VARIABLES x,      \* index into Input
          v,      \* the value of the variable
          path    \* the documents that led to it
vars == <<x, v, path>>
View == <<x, v>>

Do(val, d) == Call(Input[x].t, val, d, FL, NoOpts)

Init == /\ x \in 1..Len(Input)
        /\ v = Zero(Input[x].t)
        /\ path = <<>>
        /\ TLCSet(x, 0)

Bounded == TLCSet(x, TLCGet(x) + 1) /\ TLCGet(x) <= Budget

Fits(i) == Do(Zero(Input[x].t), Input[x].d[i]).ok

Next ==
  \E i \in 1..Len(Input[x].d) :
    LET d == Input[x].d[i]
        r == Do(v, d)
        after == IF r.ok \/ ~\E j \in 1..Len(Input[x].d) : Fits(j) THEN <<>>
                 ELSE <<Input[x].d[CHOOSE j \in 1..Len(Input[x].d) : Fits(j)]>>
    IN /\ PrintT("OUT " \o ToJson([t |-> Input[x].t, h |-> Append(path, d) \o after]))
       /\ r.ok
       /\ v' = r.v
       /\ path' = Append(path, d)
       /\ UNCHANGED x

Spec == Init /\ [][Next]_vars
=============================================================================
