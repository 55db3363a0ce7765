------------------------------- MODULE Loading -------------------------------
(* Loads of schemas, each identified by file, oneOf type and flattening.  What *)
(* a load yields is what it yields alone, in a process of its own, with the    *)
(* files as they are ("alone" events; new ones after a file was written).  The *)
(* first success is kept: later loads return the same object, whatever is in   *)
(* the file by then.  A failure is not kept.  Other loads make no difference.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l,
          truth,    \* what loads yield alone
          loaded,   \* what was loaded: the result and which object it is
          pending,  \* the loads in progress, by caller
          verdict
vars == <<n, l, truth, loaded, pending, verdict>>
Event == Traces[n].events[l + 1]
Put(fn, x, y) == [z \in DOMAIN fn \cup {x} |-> IF z = x THEN y ELSE fn[z]]
NoFn == [x \in {} |-> 0]

\* every load ends with a schema or an error
Ended(out) == out \notin {"hang", "panic", "died"}
Alone(e) == e.ev = "alone" /\ Ended(e.out) /\ truth' = Put(truth, e.arg, e.out) /\ UNCHANGED <<loaded, pending>>
Start(e) == e.ev = "start" /\ e.c \notin DOMAIN pending /\ pending' = Put(pending, e.c, e.arg) /\ UNCHANGED <<truth, loaded>>
End(e) == /\ e.ev = "end" /\ e.c \in DOMAIN pending
          /\ LET a == pending[e.c] IN
             IF a \in DOMAIN loaded
             THEN loaded[a] = [out |-> e.out, ptr |-> e.ptr] /\ UNCHANGED loaded
             ELSE /\ e.out = truth[a]
                  /\ loaded' = IF e.out = "err" THEN loaded ELSE Put(loaded, a, [out |-> e.out, ptr |-> e.ptr])
          /\ pending' = [c \in DOMAIN pending \ {e.c} |-> pending[c]]
          /\ UNCHANGED truth
Quiet(e) == e.ev = "quiet" /\ pending = NoFn /\ UNCHANGED <<truth, loaded, pending>>

Init == n \in 1..Len(Traces) /\ l = 0 /\ truth = NoFn /\ loaded = NoFn /\ pending = NoFn /\ verdict = "ok"
Step == /\ verdict = "ok" /\ l < Len(Traces[n].events)
        /\ (Alone(Event) \/ Start(Event) \/ End(Event) \/ Quiet(Event))
        /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Reject == /\ verdict = "ok" /\ l < Len(Traces[n].events)
          /\ ~ENABLED Step
          /\ PrintT(<<"REJECT", n, l + 1, ToJson([loaded |-> loaded, alone |-> truth, pending |-> pending])>>)
          /\ verdict' = "rejected" /\ UNCHANGED <<n, l, truth, loaded, pending>>
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
