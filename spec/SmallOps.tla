------------------------------- MODULE SmallOps ------------------------------
(* All chains of up to two operations, for a field of every type, over the      *)
(* values below.                                                                *)
EXTENDS Small

Plain(name) == [name |-> name, args |-> EmptyFn]
Tok(t) == [t |-> t, s |-> ""]
Lit(x) == [t |-> "lit", g |-> 0, s |-> x]
Ops1 == {Plain(x) : x \in {"duration", "inverse", "removeHTML", "convertToFloat64", "convertToInt64", "convertToBool", "valueExists"}}
  \cup {[name |-> "changeCase", args |-> [to |-> c], to |-> c] : c \in {"lower", "upper"}}
  \cup {[name |-> "max", args |-> [by |-> "@.v", return |-> "@.w"], by |-> <<KeyStep("v")>>, ret |-> <<KeyStep("w")>>]}
  \cup {[name |-> "split", args |-> [on |-> c], on |-> c] : c \in {",", ""}}
  \cup {[name |-> "toCamelCase", args |-> [delimiter |-> "_"], delimiter |-> "_"]}
  \cup {[name |-> "replace", args |-> [regex |-> "[ab,]+", new |-> "9"], items |-> <<[set |-> "ab,", q |-> "+", g |-> FALSE]>>,
         new |-> <<Lit("9")>>, start |-> FALSE],
        [name |-> "replace", args |-> [regex |-> "^[0-9]([_:]?)", new |-> "${1}1"],
         items |-> <<[set |-> "0123456789", q |-> "1", g |-> FALSE], [set |-> "_:", q |-> "?", g |-> TRUE]>>,
         new |-> <<[t |-> "g", g |-> 1], Lit("1")>>, start |-> TRUE]}
  \cup {[name |-> "timeParse", args |-> [format |-> "2006-01-02", layout |-> "02.1.06"],
         format |-> <<Tok("2006"), Lit("-"), Tok("01"), Lit("-"), Tok("02")>>, layout |-> <<Tok("02"), Lit("."), Tok("1"), Lit("."), Tok("06")>>]}
OpLists == {<<o>> : o \in Ops1} \cup {<<o, q>> : o \in Ops1, q \in Ops1}
Types == {"string", "number", "boolean", "object", "array"}
Field(t, ops) == With(IF t = "object" THEN [Object("x", <<>>) EXCEPT !.free = TRUE] ELSE IF t = "array" THEN Array("x", Node("items", "string")) ELSE Node("x", t),
                      <<By("first", <<From(<<KeyStep("a")>>, ops)>>)>>)
Schema(t, ops) == Root(<<Field(t, ops)>>)
Schemas == SetToSeq({Schema(t, ops) : t \in Types, ops \in OpLists})
vw(v, r) == O([v |-> v, w |-> r])
Values == {None, Nil, S(""), S("a"), S("aB_cd"), S("1"), S("0"), S("true"), S("F"), S("-2.50"), S("1:02"), S("1:2:3"), S("61:00"), S(":"), S("2020-02-29"), S("2021-02-29"),
           S("<b>a</b>&amp;lt;"), S("a,b,,7"), S(" 12 "), N("0"), N("1"), N("-3"), N("2.5"), N("1e3"), B(TRUE), B(FALSE),
           A(<<>>), A(<<S("1")>>), A(<<N("4"), N("5")>>), A(<<vw(N("1"), S("p")), vw(N("3"), S("q")), vw(N("3"), S("r"))>>),
           A(<<vw(N("-1"), B(FALSE)), vw(N("-2"), Nil)>>), A(<<vw(N("-1"), Nil), vw(N("-2"), S("n"))>>), A(<<vw(S("1"), S("s")), vw(N("0"), S("t"))>>), O(EmptyFn), vw(N("1"), S("u"))}
Inputs == SetToSeq({Input([a |-> i]) : i \in Values})
ASSUME Cases(Schemas, Inputs)

ops == node.tr[1].from[1].ops
On(t, o, v) == Output(TLCEval(Schema(t, o)), Input([a |-> v]))
v0 == Member(in, "a")
x == Member(Value, "x")
one == ops[1].name

\* what the first operation cannot do nothing behind it makes good
FirstFails == (Len(ops) = 2 /\ IsErr(On(node.t, <<ops[1]>>, v0))) => IsErr(Value)
\* nothing there is nothing to work with
NothingIn == v0 = Nil => ~IsErr(Value)
\* what an operation makes
Kinds == (Len(ops) = 1 /\ node.t # "array" /\ ~IsErr(Value) /\ v0 # Nil /\ x # Nil /\ On(node.t, <<>>, v0) # Nil) =>
  CASE one \in {"changeCase", "toCamelCase", "replace", "timeParse", "removeHTML"} -> x.k = "s"
    [] one \in {"inverse", "valueExists", "convertToBool"} -> x.k = "b"
    [] one \in {"convertToFloat64", "convertToInt64", "duration"} -> x.k = "n"
    [] one = "split" -> x.k = "a" /\ \A j \in DOMAIN x.a : x.a[j].k = "s"
    [] one = "max" -> \E j \in DOMAIN v0.a : x = v0.a[j].o.w
    [] OTHER -> TRUE
\* what an operation and the same again make
Twice == (Len(ops) = 2 /\ ops[1] = ops[2] /\ ~IsErr(Value) /\ v0 # Nil) =>
  CASE one \in {"changeCase", "convertToFloat64", "convertToInt64", "convertToBool"} -> Value = On(node.t, <<ops[1]>>, v0)
    [] one = "inverse" -> Value = On(node.t, <<>>, v0)
    [] one = "valueExists" -> Value = Nil
    [] OTHER -> TRUE
\* the other way round, upper case is upper case
CaseLast == (Len(ops) = 2 /\ one = "changeCase" /\ ops[2].name = "changeCase") => Value = On(node.t, <<ops[2]>>, v0)
\* the parts of a text with what is between them are the text
SplitJoins == (ops[1].name = "split" /\ Len(ops) = 1 /\ v0.k = "s" /\ node.t = "string" /\ v0.s # "") =>
              v0.s = JoinStr([j \in DOMAIN x.a |-> x.a[j].s], ops[1].on)
\* an operation sees the value as the field's type if it can be that, and as it is if not
AsType == (Len(ops) = 1 /\ v0.k # "a" /\ node.t \in {"string", "number", "boolean"}) =>
  LET asIs == On("object", ops, v0)
      own == Convert(v0, node.t) IN
  IF IsErr(own) THEN Value = asIs ELSE own.k \in {"s", "n", "b"} => Value = On("object", ops, own)
==============================================================================
