---------------------------- MODULE SmallScalars -----------------------------
(* All scalar fields x of every type, with and without a default and            *)
(* instructions with up to two sources a and b by all methods, for all inputs   *)
(* of the values below.  What is said of the sources of a value (C04, C05) is   *)
(* checked of the specification here; the same cases are run through the real   *)
(* transformer.                                                                 *)
EXTENDS Small

Types == {"string", "number", "integer", "boolean", "date-time"}
Xs == {None, Nil, S(""), S("7"), S("true"), N("0"), N("7"), B(FALSE), A(<<>>), A(<<S("7")>>), S("2020-01-02T03:04:05Z")}
As == {None, Nil, S(""), S("p"), N("2"), B(TRUE), A(<<S("q"), Nil>>)}
Bs == {None, Nil, S("q"), N("3.5")}
a == From(<<KeyStep("a")>>, <<>>)
b == Rel(<<KeyStep("b")>>, <<>>)
\* these fail for some of the values
aOp == [a EXCEPT !.ops = <<[name |-> "convertToBool", args |-> EmptyFn]>>]
bOp == [b EXCEPT !.ops = <<[name |-> "changeCase", args |-> [to |-> "upper"], to |-> "upper"]>>]
Froms == {<<>>, <<a>>, <<b>>, <<aOp>>, <<bOp>>, <<a, b>>, <<b, a>>, <<aOp, b>>, <<b, aOp>>, <<a, bOp>>, <<bOp, a>>}
Methods == {"", "first", "last", "concatenate"}
Defaults(t) == {<<>>, <<CASE t = "boolean" -> B(TRUE) [] t \in {"number", "integer"} -> N("9") [] OTHER -> S("d")>>}
Transforms == {<<>>} \cup {<<By(m, f)>> : m \in Methods, f \in Froms}
Schema(t, tr, d) == Root(<<Else(With(Node("x", t), tr), d)>>)
Schemas == SetToSeq({Schema(t, tr, d) : t \in Types, tr \in Transforms, d \in UNION {Defaults(u) : u \in Types}} \cap
                         UNION {{Schema(t, tr, d) : tr \in Transforms, d \in Defaults(t)} : t \in Types})
Inputs == SetToSeq({Input([x |-> x, a |-> p, b |-> q]) : x \in Xs, p \in As, q \in Bs})
ASSUME Cases(Schemas, Inputs)

V(tr, d, input) == Output(Schema(node.t, tr, d), input)
Alone(f) == V(<<By("first", <<f>>)>>, <<>>, Without(in, "x"))   \* what one source yields
tr1 == node.tr[1]
Yields(f) == Member(Alone(f), "x")

NullIsMissing == Value = Output(s, NoNulls(in))
OnlyX == IsErr(Value) \/ Value = Nil \/ (Value.k = "o" /\ DOMAIN Value.o = {"x"})
\* the default takes the place of nothing, and of nothing else
DefaultLast == node.def # <<>> => LET v == V(node.tr, <<>>, in) IN IF v = Nil THEN Value = O([x |-> node.def[1]]) ELSE Value = v
\* nothing from the instructions is as if there were none
NothingYields == (node.tr # <<>> /\ \A k \in DOMAIN tr1.from : Alone(tr1.from[k]) = Nil) => Value = V(<<>>, node.def, in)
\* what the instructions yield is the value whatever is at its own path
TransformFirst == (node.tr # <<>> /\ tr1.method # "concatenate" /\ \E k \in DOMAIN tr1.from : Yields(tr1.from[k]) # Nil)
                  => Value = Output(s, Without(in, "x"))
FirstYields == (node.tr # <<>> /\ tr1.method \in {"", "first"} /\ Len(tr1.from) = 2)
               => IF Alone(tr1.from[1]) # Nil THEN Value = Alone(tr1.from[1])
                  ELSE Alone(tr1.from[2]) # Nil => Value = Alone(tr1.from[2])
LastIsFirstReversed == (node.tr # <<>> /\ tr1.method = "last" /\ Len(tr1.from) = 2)
                       => Value = V(<<By("first", <<tr1.from[2], tr1.from[1]>>)>>, node.def, in)
OneSource == (node.tr # <<>> /\ Len(tr1.from) = 1) => \A m \in Methods : Value = V(<<By(m, tr1.from)>>, node.def, in)
\* concatenation needs all of its sources to be fine, in contrast to first and last, and strings
Concatenates == (node.tr # <<>> /\ tr1.method = "concatenate" /\ Len(tr1.from) = 2) =>
  LET l == Alone(tr1.from[1])
      r == Alone(tr1.from[2])
      p == Yields(tr1.from[1])
      q == Yields(tr1.from[2]) IN
  IF IsErr(l) \/ IsErr(r) THEN IsErr(Value)
  ELSE IF p = Nil THEN q # Nil => Member(Value, "x") = q
  ELSE IF q = Nil THEN Member(Value, "x") = p
  ELSE IF p.k = "s" /\ q.k = "s" /\ node.t # "date-time"
       THEN Member(Value, "x") = S(p.s \o (IF p.s # "" /\ q.s # "" THEN "-" ELSE "") \o q.s)
       ELSE node.t # "date-time" => IsErr(Value)
\* false, 0 and the empty string are there
FalsyCounts == (node.tr = <<>> /\ "x" \in DOMAIN in.o) =>
  /\ (node.t = "boolean" /\ in.o.x = B(FALSE)) => Member(Value, "x") = B(FALSE)
  /\ (node.t \in {"number", "integer"} /\ in.o.x = N("0")) => Member(Value, "x") = N("0")
  /\ (node.t = "string" /\ in.o.x = S("")) => Member(Value, "x") = S("")
==============================================================================
