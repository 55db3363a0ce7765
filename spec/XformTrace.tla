------------------------------ MODULE XformTrace ------------------------------
(* Traces of real transformers checked against the specification.  A trace is  *)
(* the making of one transformer and a history of calls on it.  The specified  *)
(* transformer has no state but its schema: whatever came before, a call       *)
(* yields the value its own input has.                                         *)
EXTENDS Valid, XmlXform, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES n,       \* the trace
          l,       \* events consumed
          verdict
vars == <<n, l, verdict>>

Trace == Traces[n]
Event == Trace.events[l + 1]

StrLeq(a, b) == a = b \/ StrLess(a, b)
\* the output w is the specified value v; current times are those of the call
RECURSIVE Same(_, _, _)
Same(v, w, e) ==
  CASE v = w -> TRUE
    [] v.k = "n" /\ Marked(v.n) -> w.k = "n"
    [] v.k = "s" /\ Contains(v.s, "~") -> w.k = "s"
    [] v.k = "now" -> w.k = "s" /\ StrLeq(e.now0[v.f], w.s) /\ StrLeq(w.s, e.now1[v.f])
    [] v.k = "a" -> w.k = "a" /\ Len(v.a) = Len(w.a) /\ \A j \in DOMAIN v.a : Same(v.a[j], w.a[j], e)
    [] v.k = "o" -> w.k = "o" /\ DOMAIN v.o = DOMAIN w.o /\ \A f \in DOMAIN v.o : Same(v.o[f], w.o[f], e)
    [] OTHER -> FALSE

Expected(in, validate) ==
  IF in.k = "bad" THEN Err
  ELSE LET v == IF Trace.xml THEN XmlTransform(Trace.root, Trace.ident, in) ELSE JsonTransform(Trace.root, Trace.ident, in) IN
       IF IsErr(v) \/ ~validate THEN v
       ELSE IF Valid(Trace.root, v) THEN v ELSE Err

ReturnOf(in, e, validate) == Same(Expected(in, validate), e.out, e)

Make == /\ l = 0
        /\ (Trace.made = "ok") = SchemaAccepted(Trace.root, Trace.ident, Trace.xml)
        /\ Trace.made \in {"ok", "error"}
Call(e) == ReturnOf(e.in, e, e.validate)

Init == /\ n \in 1..Len(Traces)
        /\ l = 0
        /\ verdict = IF Make THEN "ok"
                     ELSE IF PrintT(<<"REJECT", n, 0, ToJson([made |-> SchemaAccepted(Trace.root, Trace.ident, Trace.xml)])>>) THEN "rejected" ELSE "rejected"

Step == /\ verdict = "ok" /\ l < Len(Trace.events)
        /\ Call(Event)
        /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Explain(e) == ToJson(Expected(e.in, e.validate))
Reject == /\ verdict = "ok" /\ l < Len(Trace.events)
          /\ ~ENABLED Step
          /\ PrintT(<<"REJECT", n, l + 1, Explain(Event)>>)
          /\ verdict' = "rejected" /\ UNCHANGED <<n, l>>
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
