----------------------------- MODULE CacheTrace -----------------------------
(* Histories of real caches checked against Cache.  The event "quiet" is       *)
(* recorded when every caller is done, or has not come back for a long time.   *)
EXTENDS Cache, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l, verdict
vars == <<n, l, calls, may, val, verdict>>
Event == Traces[n].events[l + 1]

Act(e) == CASE e.ev = "call" -> Call(e.q, e.k)
            [] e.ev = "start" -> Start(e.q)
            [] e.ev = "end" -> IF e.ok THEN Built(e.q, e.v) ELSE Failed(e.q, e.v)
            [] e.ev = "ret" -> IF e.ok THEN Return(e.q, e.v) ELSE Fail(e.q, e.v)
            [] e.ev = "quiet" -> calls = NoFn /\ UNCHANGED absVars

Init == n \in 1..Len(Traces) /\ l = 0 /\ AbsInit /\ verdict = "ok"
Step == /\ verdict = "ok" /\ l < Len(Traces[n].events)
        /\ Act(Event) /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Reject == /\ verdict = "ok" /\ l < Len(Traces[n].events)
          /\ ~ENABLED Step
          /\ PrintT(<<"REJECT", n, l + 1, ToJson([calls |-> calls, may |-> may, val |-> val])>>)
          /\ verdict' = "rejected" /\ UNCHANGED <<n, l, calls, may, val>>
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
