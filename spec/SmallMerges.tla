------------------------------ MODULE SmallMerges ----------------------------
(* allOf and oneOf: a file with or without properties, items, required names,   *)
(* and up to two elements of each, some of which refer; an element may itself   *)
(* be a file that has such elements.                                           *)
EXTENDS SmallFiles

Names(req) == [required |-> A(req)]
E1 == Plus(Obj([p |-> Num1, q |-> Text]), Names(<<S("p")>>))
E2 == Obj([q |-> Num1, r |-> Text])
E3 == Arr(Text)
E4 == Plus(Arr(Num1), [required |-> A(<<S("s")>>), properties |-> O([s |-> Text])])
Here == Ref("#/definitions/b")
There == Ref("b.json")
Deep == Ref("d/b.v2.json")
Seqs(set, n) == UNION {[1..m -> set] : m \in 0..n}
List(key, q) == IF q = <<>> THEN EmptyFn ELSE (key :> A(q))
Mains == {O([type |-> S("object"), definitions |-> O([b |-> E2])] @@ List("allOf", a) @@ List("oneOf", o) @@ p @@ i @@ n) :
          a \in Seqs({E1, E2, E3, There}, 2) \cup {<<E4>>, <<There, Deep>>, <<Deep, E1>>, <<E1, E4>>, <<E3, E4>>},
          o \in Seqs({Here, There, E1}, 2) \cup {<<Deep>>, <<Deep, There>>, <<Here, Deep>>},
          p \in {EmptyFn, [properties |-> O([p |-> Text])], [properties |-> O(EmptyFn)]},
          i \in {EmptyFn, [items |-> Obj([i |-> Text])]},
          n \in {EmptyFn, Names(<<S("r"), S("p")>>)}}
B1 == Plus(Obj([p |-> O([type |-> S("boolean")]), t |-> Text]), Names(<<S("t")>>) @@ [additionalProperties |-> B(FALSE)])
\* a file which is merged itself before it is merged
B2 == O([type |-> S("object"), allOf |-> A(<<Ref("../b.json"), Obj([u |-> Text])>>), oneOf |-> A(<<Ref("../b.json#/properties"), Obj([v |-> Text])>>),
         properties |-> O([t |-> Num1])] @@ Names(<<S("u")>>))
Rest == ("b.json" :> B1) @@ ("d/b.v2.json" :> B2)
ASSUME Cases(SetToSeq({("main.json" :> m) @@ Rest : m \in Mains}),
             <<Loads("main.json", "", TRUE), Loads("main.json", "", FALSE), Loads("main.json", "b", TRUE), Loads("main.json", "b", FALSE), Types1("main.json")>>)

M == files["main.json"]
isLoad == ask.ev = "load"
All == M.o["allOf"].a
Own == FieldsOf(M, "properties")
Never == isLoad => ~IsErr(Value)
\* what an element contributes, whichever way it is written
Part(e) == IF ~IsRef(e) THEN e ELSE IF e = Here THEN E2 ELSE IF e = There THEN B1 ELSE Load(Ctx(files, ask), "d/b.v2.json")
UsesAll == ask.flatten \/ ~Has(M, "properties")
Chosen(e) == IF ask.one = "" THEN ~IsRef(e) ELSE IsRef(e)
Parts == LET a == IF UsesAll THEN ListOf(M, "allOf") ELSE <<>>
             o == SelectSeq(ListOf(M, "oneOf"), Chosen)
             q == a \o o
         IN <<M>> \o [j \in DOMAIN q |-> Part(q[j])]
Props(v) == FieldsOf(v, "properties")
Reqs(v) == {ListOf(v, "required")[j] : j \in DOMAIN ListOf(v, "required")}
\* the properties are those of the parts, each as the first part has it that has it
Properties == isLoad => LET parts == TLCEval(Parts) IN
              /\ DOMAIN Props(Value) = UNION {DOMAIN Props(parts[j]) : j \in DOMAIN parts}
              /\ \A j \in DOMAIN parts : \A x \in DOMAIN Props(parts[j]) : (\A m \in 1..(j - 1) : x \notin DOMAIN Props(parts[m])) => Props(Value)[x] = Props(parts[j])[x]
RequiredNames == isLoad => LET parts == TLCEval(Parts) IN Reqs(Value) = UNION {Reqs(parts[j]) : j \in DOMAIN parts}
FirstItems == isLoad => LET parts == TLCEval(Parts) have == {j \in DOMAIN parts : Has(parts[j], "items")} IN
              /\ Has(Value, "items") <=> have # {}
              /\ have # {} => Value.o["items"] = parts[CHOOSE j \in have : \A m \in have : j <= m].o["items"]
\* flattening only ever adds, and adds nothing to what has no properties of its own
Flat(f) == Load([Ctx(files, ask) EXCEPT !.flatten = f], "main.json")
Adds == isLoad => /\ DOMAIN Props(Flat(FALSE)) \subseteq DOMAIN Props(Flat(TRUE))
                  /\ (~Has(M, "properties") /\ \A key \in {"allOf", "oneOf"} : \A j \in DOMAIN ListOf(M, key) : M.o[key].a[j] # Deep) => Flat(FALSE) = Flat(TRUE)
\* what the file says stays
Stays == isLoad => /\ \A x \in DOMAIN Own : Props(Value)[x] = Own[x]
                   /\ Has(M, "items") => Value.o["items"] = M.o["items"]
                   /\ Len(ListOf(Value, "allOf")) = Len(ListOf(M, "allOf")) /\ Len(ListOf(Value, "oneOf")) = Len(ListOf(M, "oneOf"))
\* one part more gives no less
Shorter(key) == [M EXCEPT !.o = [x \in DOMAIN @ |-> IF x = key THEN A(SubSeq(@[x].a, 1, Len(@[x].a) - 1)) ELSE @[x]]]
Grows == (isLoad /\ Value.k = "o") => \A key \in {"allOf", "oneOf"} \cap DOMAIN M.o :
            LET less == Load(Ctx([files EXCEPT !["main.json"] = Shorter(key)], ask), "main.json") IN
            /\ DOMAIN Props(less) \subseteq DOMAIN Props(Value) /\ Reqs(less) \subseteq Reqs(Value)
            /\ \A x \in DOMAIN Props(less) : key = "oneOf" => Props(Value)[x] = Props(less)[x]
==============================================================================
