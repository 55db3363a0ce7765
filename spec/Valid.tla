-------------------------------- MODULE Valid --------------------------------
(* Validity of a value (as JSON represents it) for a schema: the keywords the  *)
(* generated schemas use.                                                      *)
EXTENDS JsonXform

\* RFC 3339 dates and times, and a date or a time alone
DateTimeText(s) ==
  LET date == <<[t |-> "2006", s |-> ""], [t |-> "lit", s |-> "-"], [t |-> "01", s |-> ""], [t |-> "lit", s |-> "-"], [t |-> "02", s |-> ""]>>
      time == <<[t |-> "15", s |-> ""], [t |-> "lit", s |-> ":"], [t |-> "04", s |-> ""], [t |-> "lit", s |-> ":"], [t |-> "05", s |-> ""]>>
  IN \/ ParseRFC3339(s) # NoMoment
     \/ ParseLayout(date, s) # NoMoment
     \/ ParseLayout(time, s) # NoMoment
     \/ ParseLayout(Append(time, [t |-> "Z07:00", s |-> ""]), s) # NoMoment

TypeHolds(node, v) ==
  CASE v.k = "z" -> node.nullable
    [] v.k = "o" -> node.t = "object"
    [] v.k = "a" -> node.t = "array"
    [] v.k = "s" -> node.t \in {"string", "date-time"}
    [] v.k = "b" -> node.t = "boolean"
    [] v.k = "n" -> node.t = "number" \/ (node.t = "integer" /\ IsIntegral(v.n))

Has(node, w) == w \in DOMAIN node.kw
RECURSIVE Valid(_, _)
Valid(node, v) ==
  /\ TypeHolds(node, v)
  /\ Has(node, "enum") => \E j \in DOMAIN node.kw["enum"].a : node.kw["enum"].a[j] = v
  /\ v.k = "s" =>
       /\ Has(node, "minLength") => Len(v.s) >= IntOf(node.kw["minLength"].n)
       /\ Has(node, "maxLength") => Len(v.s) <= IntOf(node.kw["maxLength"].n)
       /\ node.t = "date-time" => DateTimeText(v.s)
  /\ v.k = "n" =>
       /\ Has(node, "minimum") => NumLeq(node.kw["minimum"].n, v.n)
       /\ Has(node, "maximum") => NumLeq(v.n, node.kw["maximum"].n)
  /\ v.k = "a" =>
       /\ Has(node, "minItems") => Len(v.a) >= IntOf(node.kw["minItems"].n)
       /\ Has(node, "maxItems") => Len(v.a) <= IntOf(node.kw["maxItems"].n)
       /\ node.items # <<>> => \A j \in DOMAIN v.a : Valid(node.items[1], v.a[j])
  /\ v.k = "o" =>
       /\ \A j \in DOMAIN node.req : node.req[j] \in DOMAIN v.o
       /\ \A j \in DOMAIN node.props : node.props[j].name \in DOMAIN v.o => Valid(node.props[j], v.o[node.props[j].name])
       /\ Has(node, "additionalProperties") => \A f \in DOMAIN v.o : \E j \in DOMAIN node.props : node.props[j].name = f
=============================================================================
