----------------------------- MODULE SchemaTrace -----------------------------
(* What real loads returned checked against SchemaSem.                         *)
EXTENDS SchemaValid, SchemaWalk, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l, verdict
vars == <<n, l, verdict>>
Trace == Traces[n]
Event == Trace.events[l + 1]
Ctx(e) == [files |-> Trace.files, one |-> e.one, flatten |-> e.flatten]

LoadOk(e) == LET v == Load(Ctx(e), e.file) IN
             IF IsErr(v) THEN e.out = Err
             ELSE Norm(v) = Norm(e.out) /\ e.addl = AllowsMore(Ctx(e), e.file)
TypesOk(e) == LET v == Trace.files[e.file] IN
              /\ ~e.err
              /\ e.all = RefsIn(v, "allOf") /\ e.oneOf = RefsIn(v, "oneOf")
              /\ e.props = SortedStrs(DOMAIN FieldsOf(v, "properties"))
Accept(e) == CASE e.ev = "load" -> LoadOk(e)
               [] e.ev = "types" -> TypesOk(e)
               [] e.ev = "walk" -> WalkOk(Load(Ctx(e), e.file), e) = TRUE
               [] e.ev = "fieldtype" -> FieldType(e.in) = [err |-> e.err, type |-> e.type, nullable |-> e.nullable]
               [] e.ev = "valid" -> LET ok == ValidFor(Ctx(e), e.file, e.in) IN e.ok = ok /\ e.err = ~ok /\ e.ok2 = ok /\ e.err2 = ~ok

Init == n \in 1..Len(Traces) /\ l = 0 /\ verdict = "ok"
Step == /\ verdict = "ok" /\ l < Len(Trace.events)
        /\ Accept(Event) /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Explain(e) == CASE e.ev = "load" -> ToJson(Load(Ctx(e), e.file))
                [] e.ev = "walk" -> ToJson([nodes |-> {m.path : m \in Nodes(Load(Ctx(e), e.file), e.raw)},
                                            broken |-> {m.path : m \in {m \in Nodes(Load(Ctx(e), e.file), e.raw) : Broken(m.v, e.raw)}}])
                [] OTHER -> "see the files"
Reject == /\ verdict = "ok" /\ l < Len(Trace.events)
          /\ ~ENABLED Step
          /\ PrintT(<<"REJECT", n, l + 1, Explain(Event)>>)
          /\ verdict' = "rejected" /\ UNCHANGED <<n, l>>
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
