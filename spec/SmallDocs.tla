------------------------------- MODULE SmallDocs -----------------------------
(* Documents judged by schema files: one property with a keyword or a           *)
(* combination, here, by a reference into the file, or by one into another.     *)
EXTENDS SmallFiles

Kw(v, k) == O(v.o @@ k)
Texts == {Text, Kw(Text, [minLength |-> N("2")]), Kw(Text, [maxLength |-> N("2")]), Kw(Text, [enum |-> A(<<S("a"), S("bcd")>>)]), Kw(Text, [format |-> S("date-time")])}
Nums == {Kw(Num1, [minimum |-> N("2")]), Kw(O([type |-> S("integer")]), [maximum |-> N("2")]), Kw(Num1, [enum |-> A(<<N("2"), N("2.5")>>)])}
Others == {O([type |-> S("boolean")]), O([type |-> A(<<S("string"), S("null")>>)]), O([type |-> A(<<S("number"), S("object")>>)]), O([title |-> S("any")])}
Lists == {Arr(Kw(Text, [minLength |-> N("2")])), Kw(Arr(Num1), [minItems |-> N("1")]), Kw(Arr(Num1), [maxItems |-> N("1")])}
Objects == {Kw(Obj([q |-> v]), k) : v \in {Text, Kw(Num1, [minimum |-> N("2")])},
            k \in {EmptyFn, [required |-> A(<<S("q")>>)], [required |-> A(<<S("other")>>)], [additionalProperties |-> B(FALSE)], [additionalProperties |-> B(TRUE), required |-> A(<<S("q"), S("other")>>)]}}
Simple == Texts \cup Nums \cup Others \cup Lists \cup Objects
Elements == {Text, Num1, Kw(Text, [minLength |-> N("2")]), Obj([q |-> Text]), Kw(Obj([q |-> Text]), [required |-> A(<<S("q")>>)]), Ref("#/definitions/d")}
Combined == {O(key :> A(<<v, w>>)) : key \in {"allOf", "anyOf", "oneOf"}, v \in Elements, w \in Elements} \cup {O(key :> A(<<v>>)) : key \in {"allOf", "anyOf", "oneOf"}, v \in Elements}
D == Kw(Text, [maxLength |-> N("2")])
File(p, more) == O([type |-> S("object"), properties |-> O([p |-> p]), definitions |-> O([d |-> D])] @@ more)
Main(p) == File(p, EmptyFn)
Set(p, b) == ("main.json" :> Main(p)) @@ ("d/b.json" :> File(b, EmptyFn))
SetsOf == {Set(v, Text) : v \in Simple \cup Combined}
          \cup {Set(r, v) : r \in {Ref("d/b.json#/properties/p"), Arr(Ref("d/b.json#/properties/p")), Plus(Ref("d/b.json#/properties/p"), [description |-> S("here")])}, v \in Simple \cup {Ref("#/definitions/d")}}
          \cup {Set(r, Text) : r \in {Ref("#/definitions/d"), Arr(Ref("#/definitions/d")), Ref("d/b.json")}}
          \cup {("main.json" :> File(Text, [required |-> A(<<S("p")>>)])) @@ ("d/b.json" :> Text), ("main.json" :> File(Text, [additionalProperties |-> B(FALSE)])) @@ ("d/b.json" :> Text)}
None == [k |-> "none"]
Values == {None, Nil, S(""), S("a"), S("ab"), S("bcd"), S("2020-01-02T03:04:05Z"), N("1"), N("2"), N("2.5"), B(TRUE), A(<<>>), A(<<S("a")>>), A(<<S("ab"), S("bcd")>>), A(<<N("1")>>), A(<<N("1"), N("2")>>),
           O(EmptyFn), O([q |-> S("a")]), O([q |-> N("2")]), O([other |-> N("1")]), O([q |-> S("a"), other |-> Nil]), O([p |-> S("a")])}
Doc(v) == IF v = None THEN O(EmptyFn) ELSE O([p |-> v])
ASSUME Cases(SetToSeq(SetsOf), SetToSeq({Judges("main.json", Doc(v)) : v \in Values} \cup {Judges("main.json", d) : d \in {Nil, S("a"), A(<<>>), N("1"), O([p |-> S("a"), z |-> Nil])}}))

M == files["main.json"]
P == M.o["properties"].o["p"]
Says(v) == ValidFor(Ctx([files EXCEPT !["main.json"] = Main(v)], ask), "main.json", ask.in)
plain == DOMAIN M.o = {"type", "properties", "definitions"}
there == ask.in.k = "o" /\ "p" \in DOMAIN ask.in.o
\* the root is an object, and what is not there is right
Roots == plain => /\ ask.in.k # "o" => ~Value
                  /\ (ask.in.k = "o" /\ ~there) => Value
\* a combination by its elements
Combines == (plain /\ there) =>
   /\ Has(P, "allOf") => (Value <=> \A j \in DOMAIN P.o["allOf"].a : Says(P.o["allOf"].a[j]))
   /\ Has(P, "anyOf") => (Value <=> \E j \in DOMAIN P.o["anyOf"].a : Says(P.o["anyOf"].a[j]))
   /\ Has(P, "oneOf") => (Value <=> Cardinality({j \in DOMAIN P.o["oneOf"].a : Says(P.o["oneOf"].a[j])}) = 1)
\* keywords by what they are for
Keywords == (plain /\ there /\ Value) => LET v == ask.in.o["p"] IN
   /\ (P = Kw(Text, [minLength |-> N("2")])) => v \in {S("ab"), S("bcd"), S("2020-01-02T03:04:05Z")}
   /\ (P = Kw(Text, [maxLength |-> N("2")]) \/ P = Ref("#/definitions/d")) => v \in {S(""), S("a"), S("ab")}
   /\ Get(P, "enum", Nil) = A(<<S("a"), S("bcd")>>) => v \in {S("a"), S("bcd")}
   /\ Has(P, "minimum") => v \in {N("2"), N("2.5")}
   /\ Get(P, "type", Nil) = S("integer") => v \in {N("1"), N("2")}
   /\ Has(P, "minItems") => v \in {A(<<N("1")>>), A(<<N("1"), N("2")>>)}
   /\ Has(P, "maxItems") => v \in {A(<<>>), A(<<N("1")>>)}
   /\ Has(P, "required") => v.k = "o" /\ \A j \in DOMAIN P.o["required"].a : P.o["required"].a[j].s \in DOMAIN v.o
   /\ Get(P, "additionalProperties", Nil) = B(FALSE) => v.k = "o" /\ DOMAIN v.o \subseteq {"q"}
\* fewer keywords forbid less, but for one of several
Fewer == (plain /\ Value /\ DOMAIN P.o \cap {"oneOf", "anyOf", "$ref", "enum"} = {}) => \A x \in DOMAIN P.o \ {"properties"} : Says(O([y \in DOMAIN P.o \ {x} |-> P.o[y]]))
\* the file as it is loaded judges the same
AsLoaded == LET v == Load(Question("", "main.json", "", TRUE) @@ [files |-> files], "main.json") IN
            (plain /\ P.k = "o" /\ DOMAIN P.o \cap {"description"} = {}) => Value = Holds([files |-> files], "main.json", v, ask.in)
==============================================================================
