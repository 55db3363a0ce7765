------------------------------ MODULE SmallValid -----------------------------
(* Transforms that check their result: a field x of every type with one or two  *)
(* of the keywords below, required or not, with and without a default and a     *)
(* source, for all values below.                                                *)
EXTENDS Small, Valid

Kw(node1, kw) == [node1 EXCEPT !.kw = kw]
Strings == {EmptyFn, [minLength |-> N("2")], [maxLength |-> N("3")], [minLength |-> N("1"), maxLength |-> N("1")], [enum |-> A(<<S("a"), S("dd")>>)]}
Numbers == {EmptyFn, [minimum |-> N("2")], [maximum |-> N("2")], [minimum |-> N("-1"), maximum |-> N("3")], [enum |-> A(<<N("2"), N("5.5")>>)]}
Lists == {EmptyFn, [minItems |-> N("2")], [maxItems |-> N("1")]}
Closed == {EmptyFn, [additionalProperties |-> B(FALSE)]}
y == Node("y", "string")
Of(name) == {Kw(Node(name, "string"), k) : k \in Strings} \cup {Kw(Node(name, t), k) : t \in {"number", "integer"}, k \in Numbers}
            \cup {Node(name, t) : t \in {"boolean", "date-time"}}
Small1(name) == {Kw(Node(name, "string"), [minLength |-> N("2")]), Node(name, "integer")}
Fields == Of("x") \cup {Kw(Array("x", i), k) : i \in Small1("items"), k \in Lists}
          \cup {[Kw(Object("x", <<f>>), k) EXCEPT !.req = r] : f \in Small1("y"), k \in Closed, r \in {<<>>, <<"y">>, <<"other">>}}
          \cup {[Kw(Object("x", <<>>), k) EXCEPT !.free = TRUE] : k \in Closed}
Tr == {<<>>, <<By("first", <<From(<<KeyStep("a")>>, <<>>)>>)>>}
Defaults(f) == {<<>>} \cup (CASE f.t = "array" -> {<<A(<<S("dd"), S("1")>>)>>}
                              [] f.t = "object" -> {<<O([y |-> S("dd")])>>, <<O([w |-> N("1")])>>}
                              [] f.t \in {"string", "date-time"} -> {<<S("dd")>>, <<S("2020-01-02")>>}
                              [] f.t = "boolean" -> {<<B(TRUE)>>}
                              [] OTHER -> {<<N("2")>>, <<N("9")>>})
Schema(f, r, k) == [Kw(Root(<<f>>), k) EXCEPT !.req = r]
Schemas == SetToSeq(UNION {{Schema([Else(With(f, tr), d) EXCEPT !.nullable = z], r, k) :
                            tr \in Tr, d \in Defaults(f), z \in BOOLEAN, r \in {<<>>, <<"x">>}, k \in {EmptyFn}} : f \in Fields}
                   \cup {Schema(y, r, k) : r \in {<<>>, <<"y">>, <<"x">>}, k \in Closed})
Values == {None, Nil, S(""), S("a"), S("dd"), S("abcd"), N("2"), N("3"), N("5.5"), N("-7"), B(TRUE), A(<<>>), A(<<S("a")>>), A(<<S("dd")>>), A(<<S("dd"), N("1")>>),
           A(<<S("d"), S("e"), S("f")>>), O(EmptyFn), O([y |-> S("dd")]), O([y |-> S("d"), w |-> Nil]), O([w |-> N("1")]), S("2020-01-02T03:04:05Z"), S("12:30:00")}
Inputs == SetToSeq({Input([x |-> v]) : v \in Values} \cup {Input([a |-> v]) : v \in Values} \cup {Input([x |-> S("dd"), a |-> v]) : v \in Values}
                   \cup {Input([y |-> v]) : v \in Values})
ASSUME Cases(Schemas, Inputs)

Checked(schema) == LET v == TLCEval(Output(schema, in)) IN IF IsErr(v) \/ ~Valid(schema, v) THEN Err ELSE v
x == Member(Value, "x")
Passes == ~IsErr(Checked(s))
\* a result is the one without the check, or there is none
SameOrNone == Passes => Checked(s) = Value
\* nothing at all is no object
NotNothing == Value = Nil => ~Passes
\* what is required is there
Required == Passes => \A j \in DOMAIN s.req : s.req[j] \in DOMAIN Value.o
\* a field which is there and right does not spoil the others, one which is not there spoils nothing but what requires it
Absent == (x = Nil /\ ~IsErr(Value) /\ Value # Nil /\ s.req = <<>> /\ node.name = "x") => Passes
Less(kw) == {[f \in DOMAIN kw \ {g} |-> kw[f]] : g \in DOMAIN kw}
\* fewer keywords never forbid more
Monotone == Passes => /\ ~IsErr(Checked(TLCEval([s EXCEPT !.req = <<>>])))
                      /\ ~IsErr(Checked(TLCEval([s EXCEPT !.kw = EmptyFn])))
                      /\ \A k \in Less(node.kw) : ~IsErr(Checked(TLCEval([s EXCEPT !.props[1].kw = k])))
                      /\ ~IsErr(Checked(TLCEval([s EXCEPT !.props[1].nullable = TRUE])))
\* keywords by their names
Lengths == (Passes /\ x.k = "s") => /\ ("minLength" \in DOMAIN node.kw => Len(x.s) >= IntOf(node.kw["minLength"].n))
                                    /\ ("maxLength" \in DOMAIN node.kw => Len(x.s) <= IntOf(node.kw["maxLength"].n))
OneOfThem == (Passes /\ x # Nil /\ "enum" \in DOMAIN node.kw) => \E j \in DOMAIN node.kw["enum"].a : node.kw["enum"].a[j] = x
TypeIsRight == (Passes /\ x # Nil) => CASE node.t \in {"string", "date-time"} -> x.k = "s" [] node.t \in {"number", "integer"} -> x.k = "n"
                                        [] node.t = "boolean" -> x.k = "b" [] node.t = "array" -> x.k = "a" [] OTHER -> x.k = "o"
==============================================================================
