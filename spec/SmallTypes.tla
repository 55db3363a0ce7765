------------------------------ MODULE SmallTypes -----------------------------
(* The type of a field, for all declarations of up to three parts.             *)
EXTENDS SmallFiles

Parts == {S("null"), S("string"), S("object"), N("5"), Nil, A(<<S("null")>>), O([type |-> S("string")])}
Lists == UNION {[1..m -> Parts] : m \in 0..3}
Fields == {O([type |-> v]) : v \in Parts \cup {A(q) : q \in Lists} \cup {B(TRUE), S("")}}
          \cup {O(EmptyFn), O([Type |-> S("string")]), O([items |-> Text]), Plus(Arr(Text), [properties |-> O([type |-> Num1])]), O([type |-> A(<<S("null"), S("string"), S("null"), S("string")>>)])}
ASSUME Cases(<<"main.json" :> Text>>, SetToSeq({Question("fieldtype", "main.json", "", TRUE) @@ [in |-> f] : f \in Fields}))

Of(v) == FieldType(O([type |-> v]))
t == Get(ask.in, "type", Nil)
Is == FieldType(ask.in)
Reversed == t.k = "a" => Of(A([j \in DOMAIN t.a |-> t.a[Len(t.a) + 1 - j]])) = Is
\* null added makes it nullable and nothing else
Nullable == (t.k = "a" /\ ~Is.err) => Of(A(Append(t.a, S("null")))) = [Is EXCEPT !.nullable = TRUE]
\* alone or as a list of one, but for null, which as a type of its own is no nullable one
OneIsAll == (t.k = "s" /\ t # S("null")) => Of(A(<<t>>)) = Is
NoOther == (t.k \notin {"s", "a"}) <=> (Is.err /\ t.k # "a")
AtMostOne == (t.k = "a") => (Is.err <=> Cardinality({j \in DOMAIN t.a : t.a[j].k = "s" /\ t.a[j] # S("null")}) > 1)
Declared == ~Is.err => Is.type \in {"string", "object", "array", "null", ""} /\ (Is.type # "" => S(Is.type) = t \/ \E j \in DOMAIN t.a : t.a[j] = S(Is.type))
==============================================================================
