---------------------------- MODULE SmallObjects -----------------------------
(* All objects x with fields p and q, of which p may be an object itself, with  *)
(* and without instructions and defaults for each, for all inputs of the values *)
(* below.                                                                       *)
EXTENDS Small

Key(k) == <<KeyStep(k)>>
First(f) == <<By("first", <<f>>)>>
Scalars == {Else(With(Node("p", "string"), tr), d) :
            tr \in {<<>>, First(From(Key("b"), <<>>)), First(Rel(Key("q"), <<>>))}, d \in {<<>>, <<S("d")>>}}
Below == {Else(With(Object("p", <<With(Node("p", "string"), t)>>), tr), d) :
          t \in {<<>>, First(Rel(Key("z"), <<>>))}, tr \in {<<>>, First(From(Key("a"), <<>>))}, d \in {<<>>, <<O([p |-> S("e"), s |-> S("f")])>>}}
Free == {With([Object("p", <<>>) EXCEPT !.free = TRUE], tr) : tr \in {<<>>, First(From(Key("a"), <<>>))}}
Ps == Scalars \cup Below \cup Free
Qs == {Node("q", "number"), With(Node("q", "string"), First(From(<<KeyStep("x"), KeyStep("p")>>, <<>>)))}
Transforms == {<<>>, First(From(Key("a"), <<>>)), First(From(Key("b"), <<>>))}
Defaults == {<<>>, <<O([q |-> N("5"), r |-> B(FALSE)])>>}
Schema(props, tr, d) == Root(<<Else(With(Object("x", props), tr), d)>>)
Schemas == SetToSeq({Schema(<<p, q>>, tr, d) : p \in Ps, q \in Qs, tr \in Transforms, d \in Defaults})
Xs == {None, O([q |-> A(<<N("1")>>)]), O([p |-> S("x"), q |-> O([q |-> N("3")])]), N("6"),  Nil, O(EmptyFn), O([p |-> S("1")]), O([p |-> S("1"), q |-> N("2"), extra |-> S("3")]), S("str"), A(<<O([p |-> S("1")])>>),
       O([p |-> O([p |-> S("4"), z |-> S("6")]), q |-> Nil]), O([p |-> Nil, q |-> S("q")]), O([p |-> A(<<S("7"), S("8")>>)])}
As == {None, O([q |-> N("11"), p |-> O([p |-> S("12")])]), A(<<O([p |-> S("13")]), O([q |-> N("14")])>>), Nil, O([p |-> S("a"), s |-> S("t")]), S("u"), O(EmptyFn)}
Bs == {None, S("b"), O([q |-> N("9")])}
Inputs == SetToSeq({Input([x |-> i, a |-> j, b |-> k]) : i \in Xs, j \in As, k \in Bs})
ASSUME Cases(Schemas, Inputs)

Fields(v) == LET x == Member(v, "x") IN IF x.k = "o" THEN x.o ELSE EmptyFn
Of(props) == Output(TLCEval(Schema(props, node.tr, node.def)), in)
\* what the fields are added to
Base == Of(<<Node("other", "string")>>)

Own == Output(TLCEval(Schema(node.props, <<>>, <<>>)), in)   \* the fields without the instructions and the default of x
\* a field which is built takes the place of one of the base, every other one of the base stays
FieldsOverBase == IsErr(Value) \/
  LET own == Fields(TLCEval(Own))
      under == Fields(TLCEval(Base)) IN
  Fields(Value) = [f \in DOMAIN own \cup DOMAIN under |-> IF f \in DOMAIN own THEN own[f] ELSE under[f]]
\* the default is the base only if the instructions yield nothing
Source == IF node.tr = <<>> THEN Nil ELSE IF node.tr[1].from[1].path = Key("a") THEN Member(in, "a") ELSE Member(in, "b")
BaseIsEither == (Source.k \in {"o", "z"} /\ ~IsErr(Base)) =>
  LET base == IF Source.k = "o" THEN Source ELSE IF node.def = <<>> THEN O(EmptyFn) ELSE node.def[1] IN
  Base = IF DOMAIN base.o = {} THEN Nil ELSE O([x |-> base])
\* instructions which find nothing are as if there were none
NothingFound == (node.tr # <<>> /\ Source = Nil)
                => Value = Output(TLCEval(Schema(node.props, <<>>, node.def)), in)

NullIsMissing == ~(\E j \in DOMAIN node.props : node.props[j].free) => (node.tr = <<>> => Value = Output(s, NoNulls(in)))
\* a field does not depend on the others of its object
Siblings == LET p == TLCEval(Of(<<node.props[1]>>))
                q == TLCEval(Of(<<node.props[2]>>))
                base == TLCEval(Base) IN
  IF IsErr(p) \/ IsErr(q) THEN IsErr(Value)
  ELSE \A f \in DOMAIN Fields(Value) \cup DOMAIN Fields(p) \cup DOMAIN Fields(q) :
         Member(Member(Value, "x"), f) = Member(Member(IF f = "p" THEN p ELSE IF f = "q" THEN q ELSE base, "x"), f)
\* nothing but what is declared, or comes from the instructions or the default
OnlyDeclared == (node.tr = <<>> /\ node.def = <<>> /\ ~IsErr(Value)) => DOMAIN Fields(Value) \subseteq {"p", "q"}
NoEmpty == IsErr(Value) \/ Value = Nil \/ DOMAIN Fields(Value) # {}
\* the object itself is found field by field: what it is called at its own path does not matter when the fields have instructions
AllFrom == (\A j \in DOMAIN node.props : node.props[j].tr = First(From(Key("b"), <<>>)) /\ "b" \in DOMAIN in.o /\ in.o.b.k = "s") => Value = Output(s, Without(in, "x"))
==============================================================================
