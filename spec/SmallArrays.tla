----------------------------- MODULE SmallArrays -----------------------------
(* All arrays x of strings or objects with a field y, with and without          *)
(* instructions for the array and for its items, and defaults, for all inputs   *)
(* of the values below.                                                         *)
EXTENDS Small

Key(k) == <<KeyStep(k)>>
Each(k) == <<KeyStep(k), WildStep>>
First(p) == <<By("first", <<p>>)>>
y == Node("y", "string")
ItemTransforms == {<<>>, First(Rel(Key("z"), <<>>)), First(From(Key("b"), <<>>)), First(From(Each("x") \o Key("z"), <<>>)),
                   First(From(Each("a") \o Key("z"), <<>>))}
OfObjects == {Object("items", <<Else(With(y, tr), d)>>) : tr \in ItemTransforms, d \in {<<>>, <<S("d")>>}}
OfScalars == {With(Node("items", t), tr) : t \in {"string", "number"},
              tr \in {<<>>, First(Rel(Key("z"), <<>>)), First(From(Each("a"), <<>>)), First(From(Key("b"), <<>>))}}
Transforms == {<<>>, First(From(Key("a"), <<>>)), First(From(Each("a"), <<>>)), First(From(Each("a") \o Key("z"), <<>>)),
               <<By("last", <<From(Key("a"), <<>>), From(Key("b"), <<[name |-> "split", args |-> [on |-> ","], on |-> ","]>>)>>)>>}
Schema(item, tr, d) == Root(<<Else(With(Array("x", item), tr), d)>>)
Schemas == SetToSeq({Schema(item, tr, <<>>) : item \in OfObjects \cup OfScalars, tr \in Transforms}
             \cup {Schema(item, tr, <<A(<<O([y |-> S("e")]), O([y |-> S("f")])>>)>>) : item \in OfObjects, tr \in Transforms}
             \cup {Schema(item, tr, <<A(<<S("8")>>)>>) : item \in OfScalars, tr \in Transforms})
p == O([y |-> S("p")])
q == O([z |-> S("q")])
pq == O([y |-> S("r"), z |-> S("9")])
Xs == {None, Nil, A(<<>>), A(<<p>>), A(<<p, q>>), A(<<q, pq, p>>), p, S("7"), A(<<S("s"), N("2"), S("")>>), A(<<Nil, pq>>), A(<<A(<<pq>>)>>)}
As == {None, Nil, A(<<>>), A(<<pq, q>>), q, S("t"), A(<<S("u"), S("4")>>), A(<<A(<<q>>), A(<<>>)>>)}
Bs == {None, S("1,2")}
Inputs == SetToSeq({Input([x |-> i, a |-> j, b |-> k]) : i \in Xs, j \in As, k \in Bs})
ASSUME Cases(Schemas, Inputs)

item == node.items[1]
Plain == node.tr = <<>>
\* the instructions of the item look at the item or beyond arrays
OwnItems == \A tr \in {item.tr} \cup {item.props[j].tr : j \in DOMAIN item.props} :
              \A j \in DOMAIN tr : \A k \in DOMAIN tr[j].from : tr[j].from[k].rel \/ tr[j].from[k].path = Key("b")
List(v) == IF Member(v, "x").k = "a" THEN Member(v, "x").a ELSE <<>>
Given(v) == Output(s, O([f \in DOMAIN in.o |-> IF f = "x" THEN v ELSE in.o[f]]))

\* no empty lists, no empty items
NoneEmpty == IsErr(Value) \/ (List(Value) = <<>> => Value = Nil)
NoNulls1 == IsErr(Value) \/ \A j \in DOMAIN List(Value) : List(Value)[j].k # "z" /\ (List(Value)[j].k = "o" => DOMAIN List(Value)[j].o # {})
\* an item has nothing to do with the others
PerItem == (Plain /\ OwnItems /\ "x" \in DOMAIN in.o /\ in.o.x.k = "a" /\ Len(in.o.x.a) > 0) =>
  LET each == TLCEval([j \in DOMAIN in.o.x.a |-> TLCEval(Given(A(<<in.o.x.a[j]>>)))]) IN
  IF \E j \in DOMAIN each : IsErr(each[j]) THEN IsErr(Value)
  ELSE List(Value) = Flat([j \in DOMAIN each |-> List(each[j])])
\* something alone is a list of one
AloneIsOne == (Plain /\ "x" \in DOMAIN in.o /\ in.o.x.k \notin {"a", "z"}) => Value = Given(A(<<in.o.x>>))
\* without a source, what counts as missing makes no difference, and the default is built like a value
DefaultIsValue == (Plain /\ node.def # <<>> /\ (IF "x" \in DOMAIN in.o THEN in.o.x.k = "z" ELSE TRUE)) => Value = Given(node.def[1])
\* an array from another place is as if it were at its own
FromElsewhere == (node.tr = First(From(Key("a"), <<>>)) /\ OwnItems /\ "a" \in DOMAIN in.o /\ in.o.a.k = "a" /\ Len(in.o.a.a) > 1)
                 => Value = Output(Schema(item, <<>>, node.def), O([f \in DOMAIN in.o \cup {"x"} |-> IF f = "x" THEN in.o.a ELSE in.o[f]]))
==============================================================================
