----------------------------- MODULE GraphQLGen -----------------------------
(* The GraphQL schema generated from schema files, where nested structs are    *)
(* types of their own.                                                         *)
EXTENDS StructGen

GSimple == ("boolean" :> "Boolean") @@ ("number" :> "Float") @@ ("integer" :> "Int") @@ ("string" :> "String") @@ ("date-time" :> "DateTime")
Target(v) == LET t == Get(v, "target", Nil) IN IF t.k = "s" THEN t.s ELSE ""
NoSpace(s) == ReplaceAll(s, " ", "")
\* what follows a description is kept
ArgText(s) == IF HasPrefix(s, "\"") THEN SplitNE(s, "\"")[3] ELSE s
Arguments(v) == SelectSeq([j \in DOMAIN ListOf(v, "graphql-arguments") |-> NoSpace(ArgText(ListOf(v, "graphql-arguments")[j].s))], LAMBDA s : s # "")
FieldName(a, x) == TitleCase(IF x \in DOMAIN a.fields THEN a.fields[x] ELSE x)

\* the first line of the description may deprecate a field
Gone(text) == HasPrefix(text, "DEPRECATED:")
Dirs(text) == IF Gone(text) THEN <<"deprecated:" \o TrimSpace(Drop(FirstLine(text), Len("DEPRECATED:")))>> ELSE <<>>
Doc(text) == IF Gone(text) THEN (LET q == SplitNE(text, "\n") IN TrimSpace(JoinStr(SubSeq(q, 2, Len(q)), "\n"))) ELSE text

\* a type: what it is for Go, its name, what of it was made already
TypeName(a, p, x) == LET t == (IF p.root THEN TitleCase(p.json) ELSE p.json) \o TitleCase(x) IN
                     IF t \in DOMAIN a.gqlTypes THEN a.gqlTypes[t] ELSE t
\* expected is whether the schema of the field itself requires it
GField(a, p, x, v, required, expected) ==
  LET array == Kind(v) = "array"
      in == IF array THEN Get(v, "items", Nil) ELSE v
      kind == Kind(in)
      hyd == Hydrated(in)
      any == kind = "object" /\ DOMAIN Props(in) = {}
      optional == a.pointers /\ ~required
      target == IF Target(v) # "" \/ ~array \/ Target(in) = "" THEN Target(v)
                ELSE IF hyd THEN "[" \o Target(in) \o "]" \o (IF expected \/ ~a.pointers THEN "!" ELSE "") ELSE Target(in)
      base == IF target # "" THEN target ELSE IF kind \in DOMAIN GSimple THEN GSimple[kind] ELSE IF any THEN "Any" ELSE TypeName(a, p, x)
      regular == target = "" /\ kind \in DOMAIN GSimple
      never == (regular /\ (array \/ ~Nullable(v))) \/ required \/ ~a.pointers
      inner == base \o (IF never /\ base # "DateTime" /\ ~any THEN "!" ELSE "")
      text == Text(v)
  IN [name |-> x, sort |-> FieldName(a, x), virtual |-> hyd,
      type |-> IF hyd THEN target ELSE IF ~array THEN inner ELSE "[" \o inner \o "]" \o (IF optional \/ Nullable(v) THEN "" ELSE "!"),
      args |-> IF hyd THEN Arguments(v) ELSE IF array THEN <<"filter:ListFilter", "sort:ListSortParams">> ELSE <<>>,
      dirs |-> (IF array /\ ~hyd THEN <<"goField">> ELSE <<>>) \o Dirs(text),
      doc |-> Doc(text)]
\* next to a list there is its length
Total(a, x, v) ==
  LET text == Text(v)
      name == "total" \o FieldName(a, x)
      renamed == IF x \in DOMAIN a.fields THEN a.fields[x] ELSE x
  IN [name |-> name, sort |-> TitleCase(name), virtual |-> FALSE, type |-> "Int!", args |-> <<>>, dirs |-> Dirs(text),
      doc |-> "The total length of the " \o renamed \o " list at this same level in the data, this number is unaffected by filtering."]
GFields(a, p, props, req, own) ==
  LET lists == {x \in DOMAIN props : Kind(props[x]) = "array"}
      totals == {[key |-> Total(a, x, props[x]).name, x |-> x] : x \in lists}
  IN [k \in DOMAIN props \cup {t.key : t \in totals} |->
        IF k \in DOMAIN props THEN GField(a, p, k, props[k], k \in req, k \in own)
        ELSE LET t == CHOOSE t \in totals : t.key = k IN Total(a, t.x, props[t.x])]
\* the name of a length is taken, there is a list of lists, or something has several types
Taken(a, props) == \E x \in DOMAIN props :
  LET items == Get(props[x], "items", Nil) IN
  \/ Kind(props[x]) = "union"
  \/ (Kind(props[x]) = "array" /\ (Total(a, x, props[x]).name \in DOMAIN props \/ Kind(items) \in {"array", "union"}))

RECURSIVE Nested(_, _, _)
\* the types below, by their Go names
Nested(a, p, props) ==
  LET in(x) == IF Kind(props[x]) = "array" THEN Get(props[x], "items", Nil) ELSE props[x]
      objs == {x \in DOMAIN props : ~Hydrated(props[x]) /\ Kind(in(x)) = "object"}
      made(x) == [key |-> p.key \o TitleCase(x), json |-> TypeName(a, p, x), root |-> FALSE, doc |-> Text(in(x)),
                  dead |-> p.dead \/ DOMAIN Props(in(x)) = {} \/ Target(in(x)) # ""]
      below == TLCEval([x \in objs |-> LET m == made(x) IN Nested(a, m, Props(in(x))) @@
                  (m.key :> [kind |-> "type", name |-> m.json, implements |-> "", key |-> m.key, doc |-> m.doc, dead |-> m.dead,
                             bad |-> Taken(a, Props(in(x))), fields |-> GFields(a, m, Props(in(x)), ReqOf(in(x)), ReqOf(in(x)))])])
      keys == UNION {DOMAIN below[x] : x \in objs}
  IN [k \in keys |-> LET x == CHOOSE x \in objs : k \in DOMAIN below[x] IN below[x][k]]

\* what is generated for a schema
Unit(a, v, stem, implementing) ==
  LET go == Renamed(a.structs, stem)
      name == IF stem \in DOMAIN a.gqlTypes THEN a.gqlTypes[stem] ELSE IF implementing THEN Lower(stem) ELSE TitleCase(go)
      p == [key |-> TitleCase(go), json |-> name, root |-> TRUE, dead |-> FALSE]
  IN [fields |-> GFields(a, p, Props(v), ReqOf(v), ReqOf(v)), nested |-> Nested(a, p, Props(v)), go |-> go, name |-> name, doc |-> Text(v), bad |-> Taken(a, Props(v)),
      req |-> ReqOf(v), props |-> Props(v), p |-> p]
\* what is required in one schema is required in those it is merged with
Merged(a, units) ==
  LET req == UNION {u.req : u \in SetOf(units)}
      again(u) == GFields(a, u.p, u.props, req, u.req)
  IN [j \in DOMAIN units |-> again(units[j])]
RECURSIVE LastWins(_)
LastWins(q) == IF q = <<>> THEN EmptyFn ELSE q[Len(q)] @@ LastWins(SubSeq(q, 1, Len(q) - 1))

Printed(a, t) ==
  LET keys == DOMAIN t.fields
      order == SeqOf({t.fields[k].sort \o "\t" \o k : k \in keys})
      f(j) == t.fields[SplitNE(order[j], "\t")[2]]
  IN [kind |-> t.kind, name |-> t.name, implements |-> t.implements, doc |-> t.doc,
      model |-> IF \E k \in keys : ~t.fields[k].virtual THEN a.importPath \o "." \o TitleCase(t.key) ELSE "",
      fields |-> [j \in DOMAIN order |-> [name |-> f(j).name, type |-> f(j).type, args |-> f(j).args, dirs |-> f(j).dirs, doc |-> f(j).doc]]]
Types_(a, root, nested) ==
  LET live == {k \in DOMAIN nested : ~nested[k].dead}
      order == SeqOf(live)
  IN <<Printed(a, root)>> \o [j \in DOMAIN order |-> Printed(a, nested[order[j]])]

GraphQL(c, a, root, pkg) ==
  LET stem == BaseName(root)
      v == TLCEval(Load([files |-> c, one |-> stem, flatten |-> ~a.embed], root))
      all == ListOf(v, "allOf")
      one == ListOf(v, "oneOf")
      StemOf(e) == IF Has(e, "fromRef") THEN BaseName(e.o["fromRef"].s) ELSE ""
      common == TLCEval([j \in DOMAIN all |-> Unit(a, all[j], StemOf(all[1]), FALSE)])
      iface == IF stem \in DOMAIN a.gqlTypes THEN a.gqlTypes[stem] ELSE TitleCase(stem)
      shared == LastWins([j \in DOMAIN common |-> common[j].nested])
      top == IF all = <<>> THEN <<>>
             ELSE Types_(a, [kind |-> IF one = <<>> THEN "type" ELSE "interface", implements |-> "", doc |-> "",
                             name |-> IF one = <<>> THEN TitleCase(pkg) ELSE iface,
                             key |-> IF one = <<>> THEN Renamed(a.structs, StemOf(all[1])) ELSE iface,
                             fields |-> LastWins(Merged(a, common))], shared)
      own(j) == IF ~a.embed THEN <<>> ELSE LET q == ListOf(one[j], "allOf") IN [i \in DOMAIN q |-> Unit(a, q[i], StemOf(q[i]), FALSE)]
      owns == TLCEval([j \in DOMAIN one |-> own(j)])
      ownNested(j) == LastWins([i \in DOMAIN owns[j] |-> owns[j][i].nested])
      seen(j) == DOMAIN shared \cup UNION {DOMAIN ownNested(i) : i \in 1..(j - 1)}
      unit == TLCEval([j \in DOMAIN one |-> Unit(a, one[j], StemOf(one[j]), all # <<>>)])
      fresh(j) == LET q == ownNested(j) IN [k \in DOMAIN q \ seen(j) |-> q[k]]
      variant(j) == Types_(a, [kind |-> "type", implements |-> IF all = <<>> THEN "" ELSE iface, doc |-> unit[j].doc, name |-> unit[j].name,
                               key |-> unit[j].go, fields |-> LastWins(Merged(a, common \o owns[j] \o <<unit[j]>>))], unit[j].nested @@ fresh(j))
      plain == LET u == Unit(a, v, stem, FALSE) IN
               Types_(a, [kind |-> "type", implements |-> "", doc |-> u.doc, name |-> u.name, key |-> u.go, fields |-> u.fields], u.nested)
      fileOf(j) == IF ~a.interfaceFiles THEN stem ELSE IF HasPrefix(StemOf(one[j]), stem) THEN StemOf(one[j]) ELSE stem \o "_" \o StemOf(one[j])
      names == {stem} \cup {fileOf(j) : j \in DOMAIN one}
      RECURSIVE in(_, _)
      in(n, j) == IF j = 0 THEN <<>> ELSE in(n, j - 1) \o (IF fileOf(j) = n THEN variant(j) ELSE <<>>)
      content(n) == (IF n = stem THEN top \o (IF all = <<>> /\ one = <<>> THEN plain ELSE <<>>) ELSE <<>>) \o in(n, Len(one))
      bad(u) == u.bad \/ \E k \in DOMAIN u.nested : u.nested[k].bad
      units == SetOf(common) \cup SetOf(unit) \cup UNION {SetOf(owns[j]) : j \in DOMAIN one} \cup (IF all = <<>> /\ one = <<>> THEN {Unit(a, v, stem, FALSE)} ELSE {})
  IN IF IsErr(Structs(c, a, root, pkg)) THEN Err
     ELSE IF \E u \in units : bad(u) THEN Err
     ELSE [k |-> "ok", files |-> [f \in {n \o ".graphqls" : n \in names} |->
             [generated |-> TRUE, any |-> a.scalarAny /\ f = stem \o ".graphqls", types |-> content(Take(f, Len(f) - 9))]]]
==============================================================================
