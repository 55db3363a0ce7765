----------------------------- MODULE SchemaValid -----------------------------
(* Validity of a document for a schema file, by the keywords the generated     *)
(* schemas use.  Keys next to a reference say nothing here (drafts 4 to 7).    *)
EXTENDS SchemaSem

XV == INSTANCE Valid
TypeNames(s) == IF ~Has(s, "type") THEN {} ELSE IF s.o["type"].k = "s" THEN {s.o["type"].s}
                ELSE {s.o["type"].a[j].s : j \in {j \in DOMAIN s.o["type"].a : s.o["type"].a[j].k = "s"}}
HasType(v, t) ==
  CASE t = "null" -> v.k = "z"
    [] t = "object" -> v.k = "o"
    [] t = "array" -> v.k = "a"
    [] t = "string" -> v.k = "s"
    [] t = "boolean" -> v.k = "b"
    [] t = "number" -> v.k = "n"
    [] t = "integer" -> v.k = "n" /\ IsIntegral(v.n)
    [] OTHER -> FALSE

RECURSIVE Holds(_, _, _, _)
Holds(c, f, s, v) ==
  IF IsRef(s) THEN Holds(c, FileOf(f, s.o["$ref"].s), Lookup(c.files[FileOf(f, s.o["$ref"].s)], Location(s.o["$ref"].s)), v)
  ELSE
  /\ Has(s, "type") => \E t \in TypeNames(s) : HasType(v, t)
  /\ Has(s, "enum") => \E j \in DOMAIN s.o["enum"].a : s.o["enum"].a[j] = v
  /\ v.k = "s" =>
       /\ Has(s, "minLength") => Len(v.s) >= IntOf(s.o["minLength"].n)
       /\ Has(s, "maxLength") => Len(v.s) <= IntOf(s.o["maxLength"].n)
       /\ Get(s, "format", Nil) = S("date-time") => XV!DateTimeText(v.s)
  /\ v.k = "n" =>
       /\ Has(s, "minimum") => NumLeq(s.o["minimum"].n, v.n)
       /\ Has(s, "maximum") => NumLeq(v.n, s.o["maximum"].n)
  /\ v.k = "a" =>
       /\ Has(s, "minItems") => Len(v.a) >= IntOf(s.o["minItems"].n)
       /\ Has(s, "maxItems") => Len(v.a) <= IntOf(s.o["maxItems"].n)
       /\ Has(s, "items") => \A j \in DOMAIN v.a : Holds(c, f, s.o["items"], v.a[j])
  /\ v.k = "o" =>
       /\ \A j \in DOMAIN ListOf(s, "required") : s.o["required"].a[j].s \in DOMAIN v.o
       /\ \A x \in DOMAIN FieldsOf(s, "properties") \cap DOMAIN v.o : Holds(c, f, s.o["properties"].o[x], v.o[x])
       /\ Get(s, "additionalProperties", Nil) = B(FALSE) => DOMAIN v.o \subseteq DOMAIN FieldsOf(s, "properties")
  /\ \A j \in DOMAIN ListOf(s, "allOf") : Holds(c, f, s.o["allOf"].a[j], v)
  /\ ListOf(s, "anyOf") # <<>> => \E j \in DOMAIN s.o["anyOf"].a : Holds(c, f, s.o["anyOf"].a[j], v)
  /\ ListOf(s, "oneOf") # <<>> => \E j \in DOMAIN s.o["oneOf"].a :
                                    /\ Holds(c, f, s.o["oneOf"].a[j], v)
                                    /\ \A m \in DOMAIN s.o["oneOf"].a \ {j} : ~Holds(c, f, s.o["oneOf"].a[m], v)
ValidFor(c, f, v) == v.k # "bad" /\ Holds(c, f, c.files[f], v)
=============================================================================
