------------------------------ MODULE AvroGen --------------------------------
(* The Avro schemas generated for the structs, and what the container files    *)
(* written through the generated code hold for a document.                     *)
EXTENDS GoDoc, AvroTimes

JsonName(f) == SplitNE(f.json, ",")[1]
MayBeEmpty(f) == \E j \in 2..Len(SplitNE(f.json, ",")) : SplitNE(f.json, ",")[j] = "omitempty"
Plain(type) == IF HasPrefix(type, "*") THEN Drop(type, 1) ELSE type

\* all fields of a type: of a name the one embedded least
RECURSIVE Flat(_, _, _, _)
Flat(decls, level, seen, names) ==
  LET types == SetOf(level) \ seen
      fields == {f \in UNION {SetOf(decls[t].fields) : t \in types} : f.name \notin names}
      RECURSIVE below(_)
      below(j) == IF j = 0 THEN <<>> ELSE below(j - 1) \o (IF level[j] \in types THEN decls[level[j]].embeds ELSE <<>>)
  IN IF types = {} THEN {} ELSE fields \cup Flat(decls, TLCEval(below(Len(level))), seen \cup types, names \cup {f.name : f \in fields})
\* of what a field holds
Inner(decls, type, fields) == IF type = "struct" THEN SetOf(fields) ELSE Flat(decls, <<type>>, {}, {})
IsStruct(decls, type) == type = "struct" \/ type \in DOMAIN decls

------------------------------------------------------------------------------
\* The schema.  Two ways of writing a type which mean the same have one form.
Prim(s) == [t |-> s]
RECURSIVE SchemaOf(_, _, _, _)
SchemaOf(decls, type0, fields, null) ==
  LET type == Plain(type0)
      base == CASE HasPrefix(type, "[]") -> [t |-> "array", of |-> SchemaOf(decls, Drop(type, 2), fields, FALSE)]
                [] HasPrefix(type, "map[") -> [t |-> "map", of |-> Prim("string")]
                [] type = "bool" -> Prim("boolean")
                [] type = "int64" -> Prim("long")
                [] type = "float64" -> Prim("double")
                [] type = "string" -> Prim("string")
                [] type = "time.Time" -> Prim("timestamp")
                [] OTHER -> [t |-> "record", fields |-> {[name |-> JsonName(f), doc |-> f.desc, bool |-> f.type = "bool" /\ MayBeEmpty(f),
                                                          type |-> SchemaOf(decls, f.type, f.fields, MayBeEmpty(f))] : f \in Inner(decls, type, fields)}]
  IN IF null /\ base.t \notin {"array", "map", "boolean"} THEN [t |-> "optional", of |-> base] ELSE base
Metadata == {[name |-> "AvroWriteTime", bool |-> FALSE, type |-> Prim("timestamp")], [name |-> "AvroDeleted", bool |-> TRUE, type |-> Prim("boolean")]}

Odd == [t |-> "odd"]
TextOf(v, k) == LET x == Get(v, k, Nil) IN IF x.k = "s" THEN x.s ELSE ""
RECURSIVE Meant(_)
Meant(v) ==
  CASE v.k = "s" -> Prim(v.s)
    [] v.k = "a" -> IF Len(v.a) = 2 /\ v.a[1] = S("null") THEN [t |-> "optional", of |-> Meant(TLCEval(v.a[2]))] ELSE Odd
    [] v.k = "o" ->
       (LET type == Get(v, "type", Nil) IN
        CASE type.k = "o" -> Meant(type)
          [] type = S("array") -> [t |-> "array", of |-> Meant(TLCEval(Get(v, "items", Nil)))]
          [] type = S("map") -> [t |-> "map", of |-> Meant(TLCEval(Get(v, "values", Nil)))]
          [] type = S("record") -> [t |-> "record",
               fields |-> {[name |-> TextOf(f, "name"), doc |-> TextOf(f, "doc"), bool |-> Get(f, "default", Nil) = B(FALSE),
                            \* the one of a field is written next to its type
                            type |-> Meant(TLCEval(IF Has(f, "logicalType") THEN O([x \in {"type", "logicalType"} |-> f.o[x]]) ELSE Get(f, "type", Nil)))]
                           : f \in SetOf(ListOf(v, "fields"))}]
          [] type = S("long") /\ Get(v, "logicalType", Nil) = S("timestamp-millis") -> Prim("timestamp")
          [] type.k = "s" /\ ~Has(v, "logicalType") -> Prim(type.s)
          [] OTHER -> Odd)
    [] OTHER -> Odd
\* the full names of the records, which must be told apart, and the names in each of them
RECURSIVE FullNames(_), NamedOnce(_)
FullNames(v) ==
  CASE v.k = "a" -> LET r[j \in 0..Len(v.a)] == IF j = 0 THEN <<>> ELSE r[j - 1] \o FullNames(TLCEval(v.a[j])) IN r[Len(v.a)]
    [] v.k = "o" -> (IF Get(v, "type", Nil) = S("record") THEN <<TextOf(v, "namespace") \o "." \o TextOf(v, "name")>> ELSE <<>>)
                    \o (LET q == ListOf(v, "fields") r[j \in 0..Len(q)] == IF j = 0 THEN <<>> ELSE r[j - 1] \o FullNames(TLCEval(Get(q[j], "type", Nil))) IN r[Len(q)])
                    \o (IF Get(v, "type", Nil).k \in {"o", "a"} THEN FullNames(TLCEval(Get(v, "type", Nil))) ELSE <<>>)
                    \o (IF Has(v, "items") THEN FullNames(TLCEval(Get(v, "items", Nil))) ELSE <<>>)
    [] OTHER -> <<>>
NamedOnce(v) ==
  CASE v.k = "a" -> \A j \in DOMAIN v.a : NamedOnce(TLCEval(v.a[j]))
    [] v.k = "o" -> LET q == ListOf(v, "fields") IN
                    /\ Cardinality({TextOf(f, "name") : f \in SetOf(q)}) = Len(q)
                    /\ \A j \in DOMAIN q : NamedOnce(TLCEval(Get(q[j], "type", Nil)))
                    /\ (Has(v, "items") => NamedOnce(TLCEval(Get(v, "items", Nil))))
    [] OTHER -> TRUE
DistinctNames(v) == LET q == FullNames(v) IN Cardinality(SetOf(q)) = Len(q)
\* the documentation of the metadata is anything
GivenSchema(v) ==
  LET c == Meant(v)
      meta == {f \in c.fields : f.name \in {"AvroWriteTime", "AvroDeleted"}}
  IN IF c.t # "record" THEN Odd
     ELSE [data |-> c.fields \ meta, meta |-> {[name |-> f.name, bool |-> f.bool, type |-> f.type] : f \in meta}, name |-> TextOf(v, "name")]
WantedSchema(decls, type) == [data |-> SchemaOf(decls, type, <<>>, FALSE).fields, meta |-> Metadata, name |-> type]

------------------------------------------------------------------------------
\* The record.  Where the struct does not tell an empty value from none neither does the record.
RECURSIVE Fits(_, _, _, _, _, _)
TimeOfRecord(res) == res.k = "o" /\ DOMAIN res.o = {"d", "ms"}
TaggedMillis(m) == O(("d" :> N(ToString(m.d))) @@ ("ms" :> N(ToString(m.ms))))
OffsetOf(z) == IF z = "Z" THEN 0 ELSE (IF Ch(z, 1) = "-" THEN -1 ELSE 1) * (NatOf(Sub(z, 2, 3)) * 60 + NatOf(Sub(z, 5, 6))) * 60
MillisOfText(s) == LET t == ParseRFC3339(s) ns == NatOf(Take(t.frac \o "000000000", 9))
                   IN Millis([y |-> t.y, mo |-> t.mo, d |-> t.d, h |-> t.h, mi |-> t.mi, s |-> t.s, ns |-> ns, offset |-> OffsetOf(t.zone)])
Zero(type) == CASE type = "string" -> S("") [] type = "bool" -> B(FALSE) [] OTHER -> N("0")
\* val is "none" if the document has no value
Fits(decls, type0, fields, null, val, res) ==
  LET type == Plain(type0)
      has == val.k # "none"
      isEmpty(zero) == ~has \/ val = zero
  IN CASE HasPrefix(type, "[]") ->
            LET q == IF has THEN val.a ELSE <<>> IN
            res.k = "a" /\ Len(res.a) = Len(q) /\ \A j \in DOMAIN q : Fits(decls, Drop(type, 2), fields, FALSE, TLCEval(q[j]), TLCEval(res.a[j]))
       [] HasPrefix(type, "map[") -> res = IF has THEN val ELSE O(EmptyFn)
       [] type = "time.Time" ->
            IF has THEN res = TaggedMillis(MillisOfText(val.s)) \/ (null /\ type0 = type /\ val = NoTime /\ res = Nil)
            ELSE (null /\ res = Nil) \/ res = TaggedMillis(IF type0 = type THEN MillisOfText(NoTime.s) ELSE Epoch)
       [] IsStruct(decls, type) ->
            IF ~has /\ type0 # type THEN res = Nil
            ELSE LET fs == Inner(decls, type, fields) IN
                 res.k = "o" /\ DOMAIN res.o = {JsonName(f) : f \in fs}
                 /\ \A f \in fs : Fits(decls, f.type, f.fields, MayBeEmpty(f),
                                       TLCEval(IF has /\ JsonName(f) \in DOMAIN val.o THEN val.o[JsonName(f)] ELSE [k |-> "none"]), TLCEval(res.o[JsonName(f)]))
       [] OTHER -> res = (IF has THEN val ELSE Zero(type)) \/ (null /\ isEmpty(Zero(type)) /\ res = Nil)
WriteTime(t) == IF "now" \in DOMAIN t THEN O("now" :> B(TRUE)) ELSE TaggedMillis(Millis(t))
IsRecord(decls, type, e, doc, res) ==
  /\ res.k = "o" /\ {"AvroWriteTime", "AvroDeleted"} \subseteq DOMAIN res.o
  /\ res.o["AvroWriteTime"] = WriteTime(e.time)
  /\ res.o["AvroDeleted"] = B(e.how = "deleted")
  /\ Fits(decls, type, <<>>, FALSE, doc, O([x \in DOMAIN res.o \ {"AvroWriteTime", "AvroDeleted"} |-> res.o[x]]))

------------------------------------------------------------------------------
\* What Avro cannot be generated for: a property several embedded structs have, maps in arrays, and records
\* which differ but have the same name.
RECURSIVE Records(_, _, _)
Records(decls, type0, fields) ==
  LET type == Plain(type0) IN
  IF HasPrefix(type, "[]") THEN Records(decls, Drop(type, 2), fields)
  ELSE IF ~IsStruct(decls, type) THEN {}
  ELSE UNION {Records(decls, f.type, f.fields) \cup
              (LET inner == Plain(IF HasPrefix(f.type, "[]") THEN Drop(f.type, 2) ELSE f.type) IN
               IF IsStruct(decls, inner) THEN {[name |-> TitleCase(JsonName(f)), is |-> SchemaOf(decls, inner, f.fields, FALSE)]} ELSE {})
              : f \in Inner(decls, type, fields)}
RECURSIVE MapsInArrays(_, _, _)
MapsInArrays(decls, type0, fields) ==
  LET type == Plain(type0) IN
  IF HasPrefix(type, "[]") THEN HasPrefix(Plain(Drop(type, 2)), "map[") \/ MapsInArrays(decls, Drop(type, 2), fields)
  ELSE IsStruct(decls, type) /\ \E f \in Inner(decls, type, fields) : MapsInArrays(decls, f.type, f.fields)
Able(decls, type) ==
  /\ Lost(decls, <<type>>, {}, {}) = {}
  /\ ~MapsInArrays(decls, type, <<>>)
  /\ LET ns == Records(decls, type, <<>>) IN Cardinality(ns) = Cardinality({n.name : n \in ns})
UnitsOf(c, root) ==
  LET r == c[root]
      all == RefsIn(r, "allOf")
      one == RefsIn(r, "oneOf")
  IN SetOf(all) \cup SetOf(one) \cup (IF (all = <<>> /\ one = <<>>) \/ DOMAIN Props(r) # {} THEN {root} ELSE {})
AvroBuild(c, e) ==
  LET decls == TLCEval(Decls(c, e.args, e.root))
      able == \A u \in UnitsOf(c, e.root) : Able(decls, TitleCase(NameOf(e.args, u)))
      doubled == \E u \in UnitsOf(c, e.root) : Lost(decls, <<TitleCase(NameOf(e.args, u))>>, {}, {}) # {}
  IN CASE e.out.k = "ok" -> TRUE
       [] e.out.k = "err" -> ~able
       \* which does not compile: a conflict of names that is to be avoided
       [] OTHER -> doubled
DeclsFor(c, e) == Decls(c, e.args, e.root)
TypeFor(e) == TitleCase(NameOf(e.args, e.path))
AvroSchema(c, e) ==
  /\ e.out.k = "ok"
  /\ GivenSchema(e.out.v) = WantedSchema(TLCEval(DeclsFor(c, e)), TypeFor(e))
  /\ DistinctNames(e.out.v) /\ NamedOnce(e.out.v)
Container(c, e) ==
  LET decls == TLCEval(DeclsFor(c, e)) IN
  /\ e.out.k = "ok"
  /\ \/ GivenSchema(e.out.header) = WantedSchema(decls, TypeFor(e))
     \/ e.out.header = Nil /\ e.in = <<>>   \* nothing at all was written
  /\ Len(e.out.records) = Len(e.in)
  /\ \A j \in DOMAIN e.in : IsRecord(decls, TypeFor(e), e, TLCEval(e.in[j]), TLCEval(e.out.records[j]))
==============================================================================
