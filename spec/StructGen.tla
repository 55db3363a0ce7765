------------------------------ MODULE StructGen ------------------------------
(* The Go structs generated from schema files.  a holds the arguments.         *)
(* A type is a string; the fields of a nested struct, whose type ends in       *)
(* struct, are kept next to it.                                                *)
EXTENDS SchemaWalk

SeqOf(names) == SortedStrs(names)
None == [none |-> TRUE]
Fail == [fail |-> TRUE]
IsNone(f) == "none" \in DOMAIN f
Fails(f) == "fail" \in DOMAIN f
AnyFail(q) == q # <<>> /\ Fails(q[1])
Renamed(map, name) == IF name \in DOMAIN map THEN map[name] ELSE TitleCase(name)
TypeNamed(a, stem) == TitleCase(Renamed(a.structs, stem))
FirstLine(s) == SplitNE(s, "\n")[1]
Identifier(s) == s # "" /\ Ch(s, 1) \in Letters \cup {"_"} /\ AllIn(s, Letters \cup Digits \cup {"_"})
SetOf(q) == {q[j] : j \in DOMAIN q}
ReqOf(v) == {e.s : e \in {e \in SetOf(ListOf(v, "required")) : e.k = "s"}}
Text(v) == LET d == Get(v, "description", Nil) IN IF d.k = "s" THEN d.s ELSE ""

\* what a field holds: a kind of value, or none
Names(v) == SelectSeq(LET t == Get(v, "type", Nil) IN IF t.k = "s" THEN <<t.s>> ELSE [j \in DOMAIN ListOf(v, "type") |-> ListOf(v, "type")[j].s],
                      LAMBDA x : x # "null")
Nullable(v) == "null" \in Types(v)
Hydrated(v) == "graphql-hydration" \in Types(v)
Kind(v) == LET q == Names(v) IN
           IF Len(q) > 1 THEN "union" ELSE IF q = <<>> THEN ""
           ELSE IF q[1] = "string" /\ Get(v, "format", Nil) = S("date-time") THEN "date-time" ELSE q[1]
Simple == ("boolean" :> "bool") @@ ("number" :> "float64") @@ ("integer" :> "int64") @@ ("string" :> "string") @@ ("date-time" :> "time.Time")

Props(v) == FieldsOf(v, "properties")
\* only there for a resolver, maybe as what an array holds
RECURSIVE Virtual(_)
Virtual(v) == Hydrated(v) \/ (Kind(v) = "array" /\ Virtual(Get(v, "items", Nil)))
Filled(props) == \E x \in DOMAIN props : ~Hydrated(props[x])
RECURSIVE FieldOf(_, _, _, _, _), FieldsBelow(_, _, _, _)
\* the field for property x of the struct called at: v is its schema
FieldOf(a, at, x, v, required) ==
  LET array == Kind(v) = "array"
      in == IF array THEN Get(v, "items", Nil) ELSE v   \* what is in the array
      kind == Kind(in)
      named == at \o TitleCase(x)
      below == IF kind = "object" THEN TLCEval(FieldsBelow(a, named, Props(in), ReqOf(in))) ELSE <<>>
      pointer == Nullable(in) \/ (a.pointers /\ ~required)
      filled == kind = "object" /\ Filled(Props(in))
      base == IF kind \in DOMAIN Simple
              THEN (IF Nullable(v) \/ (kind = "date-time" /\ a.pointers /\ ~required) THEN "*" ELSE "") \o Simple[kind]
              ELSE IF ~filled THEN "map[string]string"
              ELSE IF a.noNested THEN (IF pointer THEN "*" ELSE "") \o named
              ELSE (IF Nullable(v) THEN "*" ELSE "") \o "struct"
      value == ~array /\ filled /\ base \in {"struct", named}   \* a struct, not a pointer to one
      text == Text(v)
  IN IF Virtual(v) THEN None
     ELSE IF kind \notin DOMAIN Simple \cup {"object"} \/ (kind = "object" /\ ~Has(in, "properties")) \/ AnyFail(below) THEN Fail
     ELSE IF ~Identifier(Renamed(a.fields, x)) \/ (a.noNested /\ filled /\ ~Identifier(named)) THEN Fail
     ELSE [name |-> TitleCase(IF x \in DOMAIN a.fields THEN a.fields[x] ELSE x),
           type |-> (IF array THEN "[]" ELSE "") \o base,
           json |-> x \o (IF required THEN "" ELSE IF value THEN ",omitzero" ELSE ",omitempty"),
           desc |-> IF a.descTag THEN FirstLine(text) ELSE "",
           doc |-> IF a.descTag THEN "" ELSE text,
           fields |-> IF a.noNested THEN <<>> ELSE below]
\* in the order of their names
FieldsBelow(a, at, props, req) ==
  LET all == TLCEval([x \in DOMAIN props |-> FieldOf(a, at, x, props[x], x \in req)])
      kept == {x \in DOMAIN all : ~IsNone(all[x])}
      names == SeqOf({all[x].name : x \in kept})
      \* of fields which are left out the name does not matter
      twice == Cardinality(kept) # Cardinality({all[x].name : x \in kept})
  IN IF (\E x \in DOMAIN all : Fails(all[x])) \/ twice THEN <<Fail>>
     ELSE [j \in 1..Len(names) |-> all[CHOOSE x \in kept : all[x].name = names[j]]]

\* without nested structs each object which has fields is a type of its own
RECURSIVE Declared(_, _, _)
Declared(a, at, props) ==
  UNION {LET v == props[x]
             in == IF Kind(v) = "array" THEN Get(v, "items", Nil) ELSE v
             named == at \o TitleCase(x)
             own == FieldsBelow(a, named, Props(in), ReqOf(in))
         IN IF Hydrated(v) \/ Kind(in) # "object" THEN {}
            ELSE (IF ~Filled(Props(in)) THEN {} ELSE {[name |-> named, embeds |-> <<>>, fields |-> own]}) \cup Declared(a, named, Props(in))
         : x \in DOMAIN props}

\* and it needs a name of its own
RECURSIVE TypeNames(_, _, _)
TypeNames(at, path, props) ==
  UNION {LET v == props[x]
             in == IF Kind(v) = "array" THEN Get(v, "items", Nil) ELSE v
             named == at \o TitleCase(x)
         IN IF Hydrated(v) \/ Kind(in) # "object" THEN {}
            ELSE {[name |-> named, path |-> Append(path, x)]} \cup TypeNames(named, Append(path, x), Props(in))
         : x \in DOMAIN props}
Ambiguous(a, at, props) == a.noNested /\ LET t == TypeNames(at, <<>>, props) IN Cardinality(t) # Cardinality({m.name : m \in t})

------------------------------------------------------------------------------
\* What an allOf has without being a file of its own belongs to the struct.
Inline(v) == SelectSeq(ListOf(v, "allOf"), LAMBDA e : ~Has(e, "fromRef"))
Embeddable(v) == SelectSeq(ListOf(v, "allOf"), LAMBDA e : Has(e, "fromRef"))
RECURSIVE Distinct(_)
Distinct(q) == IF q = <<>> THEN <<>> ELSE LET d == Distinct(SubSeq(q, 1, Len(q) - 1)) IN IF q[Len(q)] \in SetOf(d) THEN d ELSE Append(d, q[Len(q)])

\* the declarations of the file generated for path
File(c, a, path, name, embeds) ==
  LET v == TLCEval(Load([files |-> c, one |-> name, flatten |-> ~a.embed], path))
      props == MergeProps(Props(v), Inline(v))
      req == ReqOf(v) \cup UNION {ReqOf(e) : e \in SetOf(Inline(v))}
      own == FieldsBelow(a, TitleCase(name), props, req)
      all == Distinct(embeds \o IF a.embed THEN [j \in DOMAIN Embeddable(v) |-> TypeNamed(a, BaseName(Embeddable(v)[j].o["fromRef"].s))] ELSE <<>>)
      nested == Declared(a, TitleCase(name), props)
      names == SeqOf({t.name : t \in nested})
  IN IF IsErr(v) \/ AnyFail(own) \/ Ambiguous(a, TitleCase(name), props) THEN <<Fail>>
     ELSE <<[name |-> TitleCase(name), embeds |-> all, fields |-> own]>>
          \o (IF a.noNested THEN [j \in DOMAIN names |-> CHOOSE t \in nested : t.name = names[j]] ELSE <<>>)

RECURSIVE UsesTime(_)
UsesTime(fields) == \E f \in SetOf(fields) : HasSuffix(f.type, "time.Time") \/ UsesTime(f.fields)
NameOf(a, path) == TypeNamed(a, BaseName(path))
Structs(c, a, root, pkg) ==
  LET r == c[root]
      all == RefsIn(r, "allOf") \o (IF (ListOf(r, "allOf") = <<>> /\ ListOf(r, "oneOf") = <<>>) \/ DOMAIN Props(r) # {} THEN <<root>> ELSE <<>>)
      one == RefsIn(r, "oneOf")
      embeds == [j \in DOMAIN all |-> NameOf(a, all[j])]
      units == [j \in DOMAIN all |-> [path |-> all[j], name |-> embeds[j], embeds |-> <<>>]]
               \o [j \in DOMAIN one |-> [path |-> one[j], embeds |-> embeds,
                                         name |-> IF BaseName(one[j]) \in DOMAIN a.structs THEN a.structs[BaseName(one[j])] ELSE BaseName(one[j])]]
      files == TLCEval([j \in DOMAIN units |-> IF units[j].path \in DOMAIN c THEN File(c, a, units[j].path, units[j].name, units[j].embeds) ELSE <<Fail>>])
      made(j) == [pkg |-> pkg, types |-> files[j], formatted |-> TRUE, generated |-> TRUE,
                  imports |-> IF \E t \in SetOf(files[j]) : UsesTime(t.fields) THEN <<"time">> ELSE <<>>]
      out(j) == BaseName(units[j].path) \o ".go"
  IN IF \E j \in DOMAIN files : AnyFail(files[j]) THEN Err
     ELSE [k |-> "ok", files |-> [n \in {out(j) : j \in DOMAIN units} |-> made(CHOOSE j \in DOMAIN units : out(j) = n /\ \A m \in DOMAIN units : out(m) = n => m <= j)]]
==============================================================================
