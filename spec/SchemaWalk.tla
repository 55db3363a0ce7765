----------------------------- MODULE SchemaWalk -----------------------------
(* Walks over a loaded schema: every instance below the root, each once, its   *)
(* parent first, siblings in any order.  The first error ends the walk.        *)
EXTENDS SchemaSem, FiniteSets

\* the type of a field and whether it may be null
FieldTypeErr == [err |-> TRUE, type |-> "", nullable |-> FALSE]
FieldType(v) ==
  LET t == Get(v, "type", Nil) IN
  IF t.k = "s" THEN [err |-> FALSE, type |-> t.s, nullable |-> FALSE]
  ELSE IF t.k # "a" THEN FieldTypeErr
  ELSE LET strs == SelectSeq(t.a, LAMBDA e : e.k = "s")
           others == SelectSeq(strs, LAMBDA e : e # S("null"))
       IN IF Len(others) > 1 THEN FieldTypeErr
          ELSE [err |-> FALSE, type |-> IF others = <<>> THEN "" ELSE others[1].s, nullable |-> Len(strs) > Len(others)]

\* which keyword leads on from a node; the raw walk does not know unions of types
Types(v) == LET t == Get(v, "type", Nil) IN IF t.k = "s" THEN {t.s} ELSE IF t.k = "a" THEN {t.a[j].s : j \in DOMAIN t.a} ELSE {}
Leads(v, raw) ==
  IF raw THEN (LET t == FieldType(v) IN IF t.err THEN "error" ELSE IF t.type = "object" THEN "properties" ELSE IF t.type = "array" THEN "items" ELSE "none")
  ELSE IF "object" \in Types(v) THEN "properties" ELSE IF "array" \in Types(v) THEN "items" ELSE "none"
Broken(v, raw) == LET k == Leads(v, raw) IN k = "error" \/ (k # "none" /\ ~Has(v, k))

RECURSIVE Below(_, _, _), Children(_, _, _)
\* the nodes below v, whose path is at
Children(kids, at, raw) == UNION {Below(kids[x], at \o "." \o x, raw) \cup {[path |-> at \o "." \o x, parent |-> at, v |-> kids[x]]} : x \in DOMAIN kids}
Item(v, at, raw) == Below(v, at \o "[*]", raw) \cup {[path |-> at \o "[*]", parent |-> at, v |-> v]}
Below(v, at, raw) ==
  IF Broken(v, raw) \/ Leads(v, raw) = "none" THEN {}
  ELSE IF Leads(v, raw) = "properties" THEN Children(v.o["properties"].o, at, raw)
  ELSE Item(v.o["items"], at, raw)
Nodes(schema, raw) == Children(FieldsOf(schema, "properties"), "$", raw)
                      \cup (IF Has(schema, "items") THEN Item(schema.o["items"], "$", raw) ELSE {})

WalkOk(schema, e) ==
  LET nodes == TLCEval(Nodes(schema, e.raw))
      Node(p) == {m \in nodes : m.path = p}
      stops(m) == m.path = e.fail \/ Broken(m.v, e.raw)
      visit == e.visits
  IN /\ \A i, j \in DOMAIN visit : visit[i].path = visit[j].path => i = j
     /\ \A i \in DOMAIN visit : \E m \in Node(visit[i].path) :
          /\ IF e.raw THEN Norm(visit[i].v) = Norm(m.v)
             ELSE /\ Norm(visit[i].v) = Norm(Project(m.v))
                  /\ Get(visit[i].v, "additionalProperties", B(FALSE)) = Get(m.v, "additionalProperties", B(FALSE))
          /\ m.parent = "$" \/ \E j \in 1..(i - 1) : visit[j].path = m.parent
          /\ stops(m) => i = Len(visit)
     /\ e.err = \E m \in nodes : stops(m)
     /\ ~e.err => Len(visit) = Cardinality(nodes)
     /\ e.err => \E m \in nodes : stops(m) /\ visit # <<>> /\ visit[Len(visit)].path = m.path
=============================================================================
