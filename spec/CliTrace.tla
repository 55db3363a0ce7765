------------------------------- MODULE CliTrace -------------------------------
(* Recorded runs of the command and of the functions it is made of: the        *)
(* command writes what the library writes when it is called with the meaning   *)
(* of the command line, and fails, writing nothing, when that has none.        *)
EXTENDS Cli, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l,
          known,   \* what the library does, by its arguments
          verdict
vars == <<n, l, known, verdict>>
Event == Traces[n].events[l + 1]
SetOf(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
ArgsIn(e) == [x \in DOMAIN Usual |-> IF x \in {"structs", "fields", "gqlTypes"} THEN SetOf(e.args[x]) ELSE e.args[x]]

Same(a, out) == /\ a \in DOMAIN known
                /\ out.ok = known[a].ok
                /\ out.ok => out.files = known[a].files
Can(e) ==
  CASE e.ev = "library" -> TRUE
    [] e.ev = "command" -> LET m == Meaning(e.argv) IN
                           IF m.k = "args" THEN Same(m.args, e.out) /\ (e.out.ok \/ e.said # "")
                           ELSE e.out.files = <<>> /\ (~e.out.ok \/ \E i \in 1..Len(e.argv) : e.argv[i] \in {"-h", "--help"}) /\ e.said # ""
    [] OTHER -> Same(Before(e.schema, e.dir, e.msgp, SetOf(e.names)), e.out)

Init == n \in 1..Len(Traces) /\ l = 0 /\ known = [x \in {} |-> 0] /\ verdict = "ok"
Step == /\ verdict = "ok" /\ l < Len(Traces[n].events)
        /\ (Can(Event) = TRUE)
        /\ known' = IF Event.ev = "library" THEN (ArgsIn(Event) :> Event.out) @@ known ELSE known
        /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Reject == /\ verdict = "ok" /\ l < Len(Traces[n].events)
          /\ ~ENABLED Step
          /\ PrintT(<<"REJECT", n, l + 1, IF Event.ev = "command" THEN ToString(Meaning(Event.argv)) ELSE "other">>)
          /\ verdict' = "rejected" /\ UNCHANGED <<n, l, known>>
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars
================================================================================
