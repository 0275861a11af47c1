-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded sessions of the real decoder against the specification. *)
(*                                                                         *)
(* A session is a sequence of events. The state of a session is the number *)
(* of the next event and the values of its variables. Every event is one   *)
(* transition, in which what was observed is compared with what the        *)
(* specification requires. A discrepancy is printed, and the session goes  *)
(* on from what was observed.                                              *)
(***************************************************************************)
EXTENDS Decode, Json, IOUtils

TraceFile  == IOEnv.TRACE
Hdr        == JsonDeserialize(IOEnv.HDR)
HdrTypes   == Hdr.types
HdrFold    == Hdr.fold
Sessions   == ndJsonDeserialize(TraceFile)

VARIABLES sid, l, mem
vars == <<sid, l, mem>>

Ev == Sessions[sid].ev[l]

Bad(why, x) == PrintT("BAD " \o ToJson([n |-> Sessions[sid].n, l |-> l, why |-> why, exp |-> ToString(x)]))

Init == /\ sid \in 1..Len(Sessions)
        /\ l = 1
        /\ mem = << >>

Set(v, x) == mem' = (v :> x) @@ mem

\* A call of Decode or Unmarshal.
DecVerdict(e, pre, r) ==
  LET dec == e.via \in {"DS", "DB"} IN
  CASE e.bad # "" -> e.bad
    [] r.ok /\ ~e.ok -> "refused"
    [] ~r.ok /\ e.ok -> "accepted"
    [] ~r.ok /\ e.cls # r.cls -> "error class"
    [] ~r.ok /\ r.cls \notin {"syntax", "hookpanic"} /\ dec /\ e.ix # r.ix -> "error index"
    [] ~r.ok /\ r.cls = "syntax" /\ e.post # pre -> "destination changed by malformed text"
    [] ~r.ok /\ r.cls \notin {"syntax", "hookpanic"} /\ "post" \in DOMAIN e /\ ~KeptBy(e.t, pre, e.post, e.s, e.o, r.ix)
         -> "a part of the destination the text does not reach changed"
    [] "hk" \in DOMAIN e /\ e.hk # CalledHooks(e.t, e.s, e.fl, e.o, IF r.ok THEN Len(e.s) ELSE r.ix)
         -> "calls of unmarshalers"
    [] r.ok /\ dec /\ e.ix # -1 -> "index without error"
    [] r.ok /\ ~Same(r.v, e.post, e.nf) -> "value"
    [] OTHER -> ""

Decode ==
  /\ Ev.e = "dec"
  /\ LET e   == Ev
         pre == IF e.v = 0 THEN e.pre ELSE mem[e.v]
         r   == CallWith(e.t, pre, e.s, e.fl, e.o, IF e.via \in {"DS", "US"} THEN "string" ELSE "bytes")
         why == DecVerdict(e, pre, r)
     IN /\ IF why = "" THEN TRUE ELSE Bad(why, r)
        /\ IF e.v > 0 /\ "post" \in DOMAIN e THEN Set(e.v, e.post) ELSE UNCHANGED mem

\* A variable is created.
NewVar == Ev.e = "var" /\ Set(Ev.v, Ev.post)

\* A variable is looked at again: nothing but calls on it change it.
Snap ==
  /\ Ev.e = "snap"
  /\ IF Ev.bad = "" /\ Ev.post = mem[Ev.v] THEN TRUE
     ELSE Bad(IF Ev.bad = "" THEN "variable changed" ELSE Ev.bad, mem[Ev.v])
  /\ Set(Ev.v, Ev.post)

\* A call with a nil destination.
NilDest ==
  /\ Ev.e = "nil"
  /\ IF Ev.bad = "" /\ ~Ev.ok /\ Ev.cls = "nil" /\ (Ev.via \in {"DS", "DB"} => Ev.ix = 0) THEN TRUE
     ELSE Bad("nil destination", "ErrNilDest")
  /\ UNCHANGED mem

\* NewDecoder.
NewDec ==
  /\ Ev.e = "new"
  /\ LET u == UnsupportedType(Ev.t)
         g == Ev.strict /\ UnsupportedTag(Ev.t)
     IN IF /\ Ev.bad = ""
           /\ Ev.ok = ~(u \/ g)
           /\ Ev.cls = "stringtag" => g
           /\ ~Ev.ok /\ Ev.cls # "stringtag" => u
        THEN TRUE ELSE Bad("decoder construction", [bad |-> u, tag |-> g])
  /\ UNCHANGED mem

\* Everything reachable only from the arguments of a call that has returned
\* was collected.
Drop ==
  /\ Ev.e = "drop"
  /\ IF Ev.live = 0 /\ Ev.cls # "panic" THEN TRUE ELSE Bad("memory retained", Ev.live)
  /\ UNCHANGED mem

\* The methods of Number, on a number literal.
Num ==
  /\ Ev.e = "num"
  /\ LET x == Float(Ev, Ev.s, 64)
         i == IsIntLit(Ev.s) /\ FitsInt(Ev.s, 64)
     IN IF /\ Ev.str = Ev.s
           /\ Ev.fok = (x # "range") /\ (Ev.fok => Ev.f = x)
           /\ Ev.iok = i /\ (i => Ev.i = Canon(Ev.s))
        THEN TRUE ELSE Bad("number", <<x, i>>)
  /\ UNCHANGED mem

\* A document of n levels, each beginning with m bytes: the value has as many
\* (Laws!C13_Depth), a misfit at the bottom is where it is, a document that
\* lacks its last byte is none.
Deep ==
  /\ Ev.e = "deep"
  /\ IF CASE Ev.what = "value"  -> Ev.cls = "ok" /\ Ev.ix = -1 /\ Ev.d = Ev.n
          [] Ev.what = "skip"   -> Ev.cls = "ok" /\ Ev.ix = -1
          [] Ev.what = "cut"    -> Ev.cls = "syntax" /\ Ev.d = 0
          [] Ev.what = "misfit" -> Ev.cls = "unexpected" /\ Ev.ix = Ev.n * Ev.m
     THEN TRUE ELSE Bad("deep nesting", Ev.what)
  /\ UNCHANGED mem

\* A large document, put together from parts that were decoded before: with d of n
\* parts as they were alone, or failing like part number `of` at its place.
Big ==
  /\ Ev.e = "big"
  /\ LET p == Sessions[sid].ev[Ev.of]
     IN IF /\ Ev.bad = ""
           /\ CASE Ev.what = "value"  -> Ev.cls = "ok" /\ Ev.ix = -1 /\ Ev.d = Ev.n
                [] Ev.what = "misfit" -> Ev.cls = p.cls /\ (p.cls = "syntax" \/ Ev.ix = p.ix + Ev.off)
        THEN TRUE ELSE Bad(IF Ev.bad # "" THEN Ev.bad ELSE "large document", Ev.what)
  /\ UNCHANGED mem

\* Calls for a text of n1 bytes and one of n2, of the same shape: the automaton makes a
\* transition per byte and Dec visits a token once, so that what they take, t in
\* microseconds and a in kilobytes, grows in proportion, up to a constant factor. Memory
\* that is new to the process costs time too, up to a microsecond per kilobyte.
Within(x1, x2, floor) == x2 <= 8 * (x1 + floor) * (Ev.n2 \div Ev.n1 + 1)
Cost ==
  /\ Ev.e = "cost"
  /\ IF Ev.c1 # "panic" /\ Ev.c2 # "panic" /\ Within(Ev.t1, Ev.t2, 20 + Ev.a1) /\ Within(Ev.a1, Ev.a2, 16) THEN TRUE
     ELSE Bad("cost", <<8 * (Ev.t1 + 20 + Ev.a1) * (Ev.n2 \div Ev.n1 + 1), 8 * (Ev.a1 + 16) * (Ev.n2 \div Ev.n1 + 1)>>)
  /\ UNCHANGED mem

Next ==
  /\ l <= Len(Sessions[sid].ev)
  /\ l' = l + 1
  /\ UNCHANGED sid
  /\ Decode \/ NewVar \/ Snap \/ NilDest \/ NewDec \/ Drop \/ Num \/ Deep \/ Big \/ Cost

Spec == Init /\ [][Next]_vars
=============================================================================
