------------------------------- MODULE SmallXml ------------------------------
(* Fields, objects and arrays x from XML, by all paths of the kinds below, for  *)
(* all documents below.                                                         *)
EXTENDS Small

NoPred == [t |-> "none"]
Step(axis, test, name, pred) == [axis |-> axis, test |-> test, name |-> name, pred |-> pred]
Child(name) == Step("child", "name", name, NoPred)
Attr(name) == Step("child", "attr", name, NoPred)
TextStep == Step("child", "text", "", NoPred)
SelfStep == Step("child", "self", "", NoPred)
R == Step("root", "name", "r", NoPred)
Preds == {NoPred, [t |-> "idx", i |-> 2], [t |-> "attr", name |-> "id"], [t |-> "attreq", name |-> "id", s |-> "1"], [t |-> "child", name |-> "p"],
          [t |-> "childeq", name |-> "p", s |-> "s"]}
Items == {Step("child", "name", "item", pr) : pr \in Preds} \cup {Step("child", "any", "", NoPred)}
At1 == {<<R, it>> : it \in Items} \cup {<<R>>, <<Step("desc", "name", "item", NoPred)>>, <<R, Child("none")>>}
In1 == {<<Child("p")>>, <<Attr("id")>>, <<SelfStep>>, <<TextStep>>, <<Step("desc", "name", "p", NoPred)>>, <<R, Child("p")>>}
Froms(ps) == [j \in DOMAIN ps |-> [path |-> ps[j], ops |-> <<>>, bad |-> FALSE]]
X1(node1, p) == With(node1, <<By("first", Froms(<<p>>))>>)
Types == {"string", "number", "boolean"}
Fields == {Else(X1(Node("x", t), at), d) : t \in Types, at \in At1 \cup {a \o i : a \in {<<R>>, <<R, Child("item")>>}, i \in In1}, d \in {<<>>, <<S("d")>>}}
Objects == {Else(X1(Object("x", <<Else(X1(Node("y", "string"), i), e)>>), at), d) :
            at \in At1, i \in In1, e \in {<<>>, <<S("e")>>}, d \in {<<>>, <<O([z |-> S("f")])>>}}
         \cup {Else(Object("x", <<X1(Node("y", "string"), <<R, Child("item")>> \o i)>>), d) : i \in In1, d \in {<<>>, <<O([y |-> S("f")])>>}}
Arrays == {Else(X1(Array("x", Object("items", <<X1(Node("y", "string"), i), X1(Node("w", "number"), <<Attr("n")>>)>>)), at), d) :
           at \in At1, i \in In1, d \in {<<>>, <<A(<<O([y |-> S("g")])>>)>>}}
         \cup {X1(Array("x", X1(Node("items", t), i)), at) : t \in Types, at \in At1, i \in In1}
Schemas == SetToSeq({Root(<<x>>) : x \in Fields \cup Objects \cup Arrays})

Txt(s1) == [t |-> "t", s |-> s1]
Elem(name, attrs, kids) == [t |-> "e", name |-> name, attrs |-> attrs, kids |-> kids]
Doc(kids) == [k |-> "doc", kids |-> <<Elem("r", <<>>, kids)>>]
p(s1) == Elem("p", <<>>, IF s1 = "" THEN <<>> ELSE <<Txt(s1)>>)
i1 == Elem("item", <<<<"id", "1">>>>, <<p("s")>>)
i2 == Elem("item", <<<<"id", "2">>, <<"n", "7">>>>, <<p("1"), p("0")>>)
i3 == Elem("item", <<>>, <<Txt("true")>>)
i4 == Elem("item", <<<<"n", "4">>>>, <<>>)
i5 == Elem("item", <<<<"id", "">>>>, <<Txt("lead"), p("")>>)
q == Elem("other", <<<<"id", "1">>>>, <<Elem("item", <<>>, <<p("deep")>>)>>)
Bodies == {<<>>, <<Txt("5")>>, <<i1>>, <<i2>>, <<i3>>, <<i4>>, <<i5>>, <<i1, i2>>, <<i3, i4, i3>>, <<i2, q, i1>>, <<p("top"), i4, i5>>, <<q>>, <<Txt("mixed"), i3, p("end")>>}
Inputs == SetToSeq({Doc(b) : b \in Bodies})
ASSUME Cases(Schemas, Inputs)

x == Member(Value, "x")
body == in.kids[1].kids
from == node.tr[1].from[1].path
Here == IF node.tr = <<>> THEN <<>> ELSE XEval(in, from, <<Ref(<<>>)>>)
\* what is not there is the default
Missing == (node.tr # <<>> /\ Here = <<>> /\ ~IsErr(Value)) =>
  (IF node.def = <<>> THEN Value = Nil ELSE x = node.def[1])
\* a scalar from one element without elements is its text, converted; several are one string
ScalarOfOne == (node.t = "string" /\ Here # <<>>) =>
  x = S(JoinStr([j \in DOMAIN Here |-> InnerText(in, Here[j])], " "))
FirstOfSome == (node.t \in {"number", "boolean"} /\ Here # <<>>) =>
  LET v == ToType(S(InnerText(in, Here[1])), node.t) IN
  IF IsErr(v) THEN TRUE ELSE IF v = Nil THEN Value = (IF node.def = <<>> THEN Nil ELSE O([x |-> node.def[1]])) ELSE x = Erase(v)
\* an array has a value for every element found which has one, in the order of the document
PerElement == (node.t = "array" /\ from \in {<<R, Child("item")>>} /\ ~IsErr(Value) /\ node.def = <<>>) =>
  LET own == SelectSeq(body, LAMBDA e : IsElem(e) /\ e.name = "item")
      rooted == \E j \in DOMAIN node.items[1].props : node.items[1].props[j].tr[1].from[1].path[1] = R
      one(e) == LET v == TLCEval(Output(s, Doc(<<e>>))) IN IF Member(v, "x").k = "a" THEN Member(v, "x").a ELSE <<>>
  IN (~rooted /\ Len(own) > 1 /\ \A j \in DOMAIN own : IsErr(Output(s, Doc(<<own[j]>>))) = FALSE) =>
     (IF x = Nil THEN <<>> ELSE x.a) = Flat([j \in DOMAIN own |-> one(own[j])])
\* an object which is not there has no fields of its own
NoObject == (node.t = "object" /\ node.tr # <<>> /\ Here = <<>> /\ node.def = <<>>) => Value = Nil
==============================================================================
