------------------------------ MODULE SmallPaths -----------------------------
(* All source paths of up to three steps, for a field of every shape, over the  *)
(* values below.                                                                *)
EXTENDS Small

Steps == {KeyStep("a"), KeyStep("b"), IdxStep(0), IdxStep(1), WildStep, [t |-> "rec", key |-> "b"], [t |-> "keys", keys |-> <<"b", "a">>],
          [t |-> "idxs", is |-> <<1, 0>>], [t |-> "range", from |-> 0, to |-> 2], [t |-> "filter", key |-> "b", v |-> S("s")]}
Paths == {<<KeyStep("a")>> \o p : p \in {<<>>} \cup {<<x>> : x \in Steps} \cup {<<x, y>> : x \in Steps, y \in Steps}}
         \cup {<<[t |-> "rec", key |-> "b"]>> \o p : p \in {<<>>} \cup {<<x>> : x \in Steps}}
Fields == {Node("x", "string"), Array("x", Node("items", "string")), [Object("x", <<>>) EXCEPT !.free = TRUE]}
From1(f, p) == With(f, <<By("first", <<From(p, <<>>)>>)>>)
Schema(f, p) == Root(<<From1(f, p)>>)
Schemas == SetToSeq({Schema(f, p) : f \in Fields, p \in Paths})
ab(v, u) == O([a |-> v, b |-> u])
bs == O([b |-> S("s")])
Values == {None, Nil, S("s"), N("1"), A(<<>>), A(<<S("p"), S("q"), S("r")>>), O(EmptyFn), bs, ab(S("t"), S("s")), ab(bs, Nil), ab(A(<<bs, S("u")>>), S("s")),
           A(<<bs, ab(N("2"), S("v")), Nil, bs>>), A(<<A(<<S("w")>>), A(<<>>), A(<<bs, S("y")>>)>>), O([b |-> A(<<bs, A(<<S("z")>>)>>)]), ab(ab(S("1"), S("2")), ab(S("3"), S("s"))),
           A(<<Nil>>), O([c |-> bs, d |-> O([b |-> S("e")])])}
Inputs == SetToSeq({Input([a |-> i, b |-> j]) : i \in Values, j \in {None, S("other")}})
ASSUME Cases(Schemas, Inputs)

path == node.tr[1].from[1].path
x == Member(Value, "x")
Is(t) == node.t = t /\ ~node.free
As(f) == Member(Output(TLCEval(Schema(f, path)), in), "x")

\* what is found as it is
Found == Eval(path, in)
\* a path of names and positions finds one thing, the field is that thing
OneThing == (SinglePath(path) /\ node.free) =>
  IF Found = None \/ Found = Nil THEN x = Nil
  ELSE IF Found.k = "a" THEN TRUE ELSE IF Found.k = "o" /\ DOMAIN Found.o = {} THEN TRUE ELSE x = Found
\* any other finds a list, of which a single value is the first and an array all
FirstOfMany == (~SinglePath(path) /\ node.t = "string" /\ x # Nil /\ Found.k = "a" /\ Found.a # <<>> /\ Found.a[1].k \in {"s", "n", "b"}) =>
  x.k = "s" /\ (Found.a[1].k = "s" => x = Found.a[1])
NoneOfMany == (~SinglePath(path) /\ Found = A(<<>>)) => x = Nil
AllOfMany == (~SinglePath(path) /\ node.t = "array" /\ Len(Found.a) > 1 /\ \A j \in DOMAIN Found.a : Found.a[j].k = "s") => x = Found
\* one step deeper in every item: wild, then the step, is every item's own
Deeper == (Len(path) > 1 /\ path[Len(path)] = WildStep /\ node.t = "array") =>
  LET up == Eval(SubSeq(path, 1, Len(path) - 1), in) IN
  SinglePath(SubSeq(path, 1, Len(path) - 1)) => Found = A(IF up = None THEN <<>> ELSE ChildrenOf(up))
==============================================================================
