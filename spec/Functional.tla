------------------------------ MODULE Functional ------------------------------
(* A transformer is a function.  Which function is not said here (that is       *)
(* JsonXform and XmlXform): it is what a call returns alone, first thing in a   *)
(* process of its own.  Whatever other transformers and callers do, before or   *)
(* at the same time, and however the schema and the input are written, every    *)
(* call returns that value and leaves its input alone.  What was returned stays  *)
(* what it is whatever is called later (held), though callers use the buffers    *)
(* of their inputs again.                                                       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES n, l,
          f,        \* what is known of the function: by transformer and input
          pending,  \* the calls which have not returned, by caller
          verdict
vars == <<n, l, f, pending, verdict>>
Event == Traces[n].events[l + 1]
Empty == [x \in {} |-> 0]
At(fn, x, y) == [z \in DOMAIN fn \cup {x} |-> IF z = x THEN y ELSE fn[z]]
Arg(e) == <<e.id, e.in>>

Alone(e) == e.ev = "alone" /\ Arg(e) \notin DOMAIN f /\ f' = At(f, Arg(e), e.out) /\ UNCHANGED pending
Returns(arg, out) == out = f[arg] /\ UNCHANGED f
Call(e) == e.ev = "call" /\ Returns(Arg(e), e.out) /\ UNCHANGED pending
Held(e) == e.ev = "held" /\ Returns(Arg(e), e.out) /\ UNCHANGED pending
Start(e) == e.ev = "start" /\ e.c \notin DOMAIN pending /\ pending' = At(pending, e.c, Arg(e)) /\ UNCHANGED f
End(e) == e.ev = "end" /\ e.c \in DOMAIN pending /\ Returns(pending[e.c], e.out)
          /\ pending' = [c \in DOMAIN pending \ {e.c} |-> pending[c]]

Init == n \in 1..Len(Traces) /\ l = 0 /\ f = Empty /\ pending = Empty /\ verdict = "ok"
Step == /\ verdict = "ok" /\ l < Len(Traces[n].events)
        /\ (Alone(Event) \/ Call(Event) \/ Held(Event) \/ Start(Event) \/ End(Event))
        /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Reject == /\ verdict = "ok" /\ l < Len(Traces[n].events)
          /\ ~ENABLED Step
          /\ PrintT(<<"REJECT", n, l + 1, ToJson([expected |-> IF Event.ev = "end" THEN f[pending[Event.c]] ELSE f[Arg(Event)]])>>)
          /\ verdict' = "rejected" /\ UNCHANGED <<n, l, f, pending>>
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
