----------------------------- MODULE SmallNested -----------------------------
(* Arrays x of objects with an array y of objects or strings: instructions of   *)
(* the inner items which go through the array they are in, the one around it or *)
(* another one, with [*] standing for the item being built wherever the path is *)
(* the one of the array.                                                        *)
EXTENDS Small

Key(k) == <<KeyStep(k)>>
Each(k) == <<KeyStep(k), WildStep>>
First(p) == <<By("first", <<p>>)>>
w == Node("w", "string")
Inner == {Object("items", <<With(w, tr)>>) :
          tr \in {<<>>, First(Rel(Key("v"), <<>>)), First(From(Each("x") \o Each("y") \o Key("v"), <<>>)), First(From(Each("x") \o Key("n"), <<>>)),
                  First(From(Each("a") \o Each("y") \o Key("v"), <<>>)),
                  <<By("concatenate", <<From(Each("x") \o Key("n"), <<>>), Rel(Key("v"), <<>>)>>)>>}}
         \cup {With(Node("items", "string"), tr) :
               tr \in {<<>>, First(From(Each("x") \o Key("n"), <<>>)), First(From(Each("x") \o Each("y"), <<>>))}}
Ys == {Else(With(Array("y", inner), tr), <<>>) : inner \in Inner,
       tr \in {<<>>, First(Rel(Key("z"), <<>>)), First(From(Each("x") \o Key("z"), <<>>)), First(From(Each("a") \o Key("z"), <<>>))}}
Xtr == {<<>>, First(From(Key("a"), <<>>)), First(From(Each("a"), <<>>))}
Schema(ns, tr) == Root(<<With(Array("x", Object("items", ns)), tr)>>)
n == Node("n", "string")
Schemas == SetToSeq({Schema(<<y>>, tr) : y \in Ys, tr \in Xtr} \cup {Schema(<<n, y>>, tr) : y \in Ys, tr \in Xtr})
wv(i) == O([w |-> S("w" \o i), v |-> S("v" \o i)])
i1 == O([y |-> A(<<wv("1"), wv("2")>>), n |-> S("n1")])
i2 == O([y |-> A(<<wv("3")>>), z |-> A(<<wv("4"), S("t")>>)])
i3 == O([n |-> S("n3")])
i4 == O([y |-> wv("5"), z |-> S("6"), n |-> S("")])
i5 == O([y |-> A(<<S("u"), S("")>>), n |-> N("8"), z |-> Nil])
i6 == O([y |-> A(<<A(<<wv("7")>>), Nil>>)])
Lists == {None, Nil, A(<<>>), A(<<i1>>), A(<<i1, i2>>), A(<<i3, i1, i5>>), A(<<i4, i2, i6>>), A(<<i2, Nil, i5>>), i1, A(<<A(<<i2>>)>>)}
Inputs == SetToSeq({Input([x |-> i, a |-> j]) : i \in Lists, j \in Lists})
ASSUME Cases(Schemas, Inputs)

item == node.items[1]
y == item.props[Len(item.props)]
inner == y.items[1]
List(v) == IF Member(v, "x").k = "a" THEN Member(v, "x").a ELSE <<>>
Used == y.tr \o inner.tr \o (IF inner.props = <<>> THEN <<>> ELSE inner.props[1].tr)
\* nothing below x looks into a
OnlyX == \A j \in DOMAIN Used : \A k \in DOMAIN Used[j].from :
           LET f == Used[j].from[k] IN f.rel \/ f.path[1] # KeyStep("a")
Given(v) == Output(s, TLCEval(O([f \in DOMAIN in.o \cup {"x"} |-> IF f = "x" THEN v ELSE in.o[f]])))

\* an item of x has nothing to do with the others
PerItem == (node.tr = <<>> /\ "x" \in DOMAIN in.o /\ in.o.x.k = "a" /\ Len(in.o.x.a) > 1) =>
  LET each == TLCEval([j \in DOMAIN in.o.x.a |-> TLCEval(Given(A(<<in.o.x.a[j]>>)))]) IN
  IF \E j \in DOMAIN each : IsErr(each[j]) THEN IsErr(Value)
  ELSE List(Value) = Flat([j \in DOMAIN each |-> List(each[j])])
\* nor what is beside the array
NothingElse == (node.tr = <<>> /\ OnlyX) => Value = Output(s, Without(in, "a"))
\* an array from another place is as if it were at its own
FromElsewhere == (node.tr = First(From(Key("a"), <<>>)) /\ OnlyX /\ "a" \in DOMAIN in.o /\ in.o.a.k = "a" /\ Len(in.o.a.a) > 1)
                 => Value = Output(Schema(item.props, <<>>), O([x |-> in.o.a]))
\* every inner list is of items which are there
InnerFilled == IsErr(Value) \/ \A j \in DOMAIN List(Value) :
  LET e == List(Value)[j] IN DOMAIN e.o # {} /\ ("y" \in DOMAIN e.o => e.o.y.a # <<>> /\ \A k \in DOMAIN e.o.y.a : e.o.y.a[k].k # "z")
==============================================================================
