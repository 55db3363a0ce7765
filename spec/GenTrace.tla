------------------------------ MODULE GenTrace ------------------------------
(* What was really generated checked against the specs.                         *)
EXTENDS GraphQLGen, AvroGen, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l, verdict
vars == <<n, l, verdict>>
Trace == Traces[n]
Event == Trace.events[l + 1]

Expected(e) == CASE e.ev = "structs" -> Structs(Trace.files, e.args, e.root, e.pkg)
                 [] e.ev \in {"compiles", "roundtrip", "avrobuild", "container"} -> <<>>
                 [] e.ev = "avsc" -> WantedSchema(DeclsFor(Trace.files, e), TypeFor(e))
                 [] e.ev = "times" -> AvroTimes(e)
                 [] e.ev = "graphql" -> GraphQL(Trace.files, e.args, e.root, e.pkg)
Accept(e) == CASE e.ev = "compiles" -> e.out.k = "ok"
               [] e.ev = "roundtrip" -> RoundTrip(Trace.files, e)
               [] e.ev = "avrobuild" -> AvroBuild(e.files, e)
               [] e.ev = "avsc" -> AvroSchema(Trace.files, e)
               [] e.ev = "container" -> Container(Trace.files, e)
               [] OTHER -> e.out = Expected(e)
\* A finding which is listed: what is known to fail, in the way it is known to.
Finding(e) == CASE e.ev = "roundtrip" -> IF LosesDoubles(Trace.files, e) THEN "doubly-embedded" ELSE ""
              [] OTHER -> ""

Init == n \in 1..Len(Traces) /\ l = 0 /\ verdict = "ok"
Step == /\ verdict = "ok" /\ l < Len(Trace.events)
        /\ (Accept(Event) = TRUE) /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Reject == /\ verdict = "ok" /\ l < Len(Trace.events)
          /\ ~ENABLED Step
          /\ LET known == Finding(Event) IN
             IF known = "" THEN PrintT(<<"REJECT", n, l + 1, ToJson(Expected(Event))>>) /\ verdict' = "rejected" /\ UNCHANGED <<n, l>>
             ELSE PrintT(<<"KNOWN", n, l + 1, known>>) /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
