------------------------------ MODULE SmallWalks -----------------------------
(* Walks of small schemas, in both ways, with callbacks that fail nowhere or at *)
(* one of the places.                                                          *)
EXTENDS SmallFiles

Multi(types) == [type |-> A(types)]
Leaf == {Text, Obj([y |-> Text]), Arr(Text), O([type |-> S("object")])}
Inner == Leaf \cup {Obj([x |-> l]) : l \in Leaf} \cup {Arr(l) : l \in Leaf} \cup {Arr(Arr(l)) : l \in {Text, Obj([y |-> Text])}}
         \cup {Obj(EmptyFn), O([type |-> S("array")]), O([description |-> S("no type")]), O([properties |-> O([y |-> Text])]),
               O(Multi(<<S("null"), S("object")>>) @@ [properties |-> O([y |-> Text])]), O(Multi(<<S("array"), S("null")>>) @@ [items |-> Num1]),
               O(Multi(<<S("string"), S("null")>>)), O(Multi(<<S("null")>>)), O(Multi(<<S("object")>>)),
               O(Multi(<<S("array"), S("object")>>) @@ [items |-> Num1, properties |-> O([y |-> Text])]),
               Plus(Text, [items |-> Num1, properties |-> O([y |-> Text])]),
               Plus(Obj([y |-> Text]), [items |-> Num1]), Plus(Arr(Text), [properties |-> O([y |-> Text])]),
               Plus(Obj([y |-> Text]), [required |-> A(<<S("y")>>), description |-> S("d"), format |-> S("f"), additionalProperties |-> B(FALSE), allOf |-> A(<<Obj([z |-> Text])>>)])}
Few == {Text, Obj([x |-> Text]), Arr(Text), O([type |-> S("object")])}
ASSUME Cases(SetToSeq({("main.json" :> m) : m \in {Obj([a |-> v]) : v \in Inner} \cup {Arr(v) : v \in Inner} \cup {Plus(Obj([a |-> v]), [items |-> w]) : v \in Few, w \in Few}
                                                  \cup {Obj([a |-> v, b |-> w]) : v \in Inner, w \in Few} \cup {Obj(EmptyFn), Text}}),
             [j \in 1..14 |-> LET fail == (<<"", "$.a", "$.b", "$.a.x", "$.a[*]", "$[*]", "$.a.y">>)[(j + 1) \div 2] IN Walks("main.json", TRUE, j % 2 = 0, fail)])

M == Load(Ctx(files, ask), "main.json")
The == Nodes(M, ask.raw)
\* how many instances there are, told without their paths
Goes(v) == IF ask.raw /\ FieldType(v).err THEN "no" ELSE IF "object" \in Types(v) THEN "properties" ELSE IF "array" \in Types(v) THEN "items" ELSE "no"
RECURSIVE Size(_), Sum(_, _)
Sum(kids, keys) == IF keys = {} THEN 0 ELSE LET x == CHOOSE x \in keys : TRUE IN 1 + Size(kids[x]) + Sum(kids, keys \ {x})
Size(v) == CASE Goes(v) = "properties" -> Sum(FieldsOf(v, "properties"), DOMAIN FieldsOf(v, "properties"))
             [] Goes(v) = "items" -> IF Has(v, "items") THEN 1 + Size(v.o["items"]) ELSE 0
             [] OTHER -> 0
Counted == Cardinality(Value) = Sum(FieldsOf(M, "properties"), DOMAIN FieldsOf(M, "properties")) + (IF Has(M, "items") THEN 1 + Size(M.o["items"]) ELSE 0)
OnceEach == Cardinality(Value) = Cardinality(The)
\* the parent of an instance is the root or an instance
Tree == \A m \in The : m.parent = "$" \/ m.parent \in Value
\* the instance is what the schema has at the path
RECURSIVE Follow(_, _)
Follow(v, path) == IF path = "" THEN v
                   ELSE IF HasPrefix(path, "[*]") THEN Follow(v.o["items"], Drop(path, 3))
                   ELSE Follow(v.o["properties"].o[SubSeq(path, 2, 2)], Drop(path, 2))
InPlace == \A m \in The : m.v = Follow(M, Drop(m.path, 1))
\* both walks go the same ways where there is one type
Same == (\A m \in Nodes(M, TRUE) \cup Nodes(M, FALSE) : Cardinality(Types(m.v) \ {"null"}) = 1) => {m.path : m \in Nodes(M, ~ask.raw)} = Value
==============================================================================
