----------------------------- MODULE SmallStructs ----------------------------
(* The structs for every small property, required or not, and for small         *)
(* compositions of files.                                                      *)
EXTENDS SmallGen

Scalar == {Word, Date} \cup {O([type |-> S(t)]) : t \in {"number", "integer", "boolean"}}
Leaf == Scalar \cup {OrNull(v) : v \in {Word, Date, O([type |-> S("integer")])}}
Inner == {Object1([q |-> v], r) : v \in {Word, OrNull(Word), Date, List1(Word)}, r \in {{}, {"q"}}}
         \cup {Object1([q |-> Object1([r |-> v], r)], {}) : v \in {Word, OrNull(Date)}, r \in {{}, {"r"}}}
         \cup {Object1([q |-> Says(Word, "first line\nand \"more\""), a |-> Hydrate(Word)], {"q", "a"}), Object1([q |-> Hydrate(Word)], {}), Object1(EmptyFn, {})}
Properties == Leaf \cup Inner \cup {OrNull(v) : v \in Inner} \cup {List1(v) : v \in Leaf \cup Inner} \cup {List1(OrNull(v)) : v \in Inner}
              \cup {OrNull(List1(v)) : v \in {Word, Date, Object1([q |-> Word], {}), OrNull(Word)}}
              \cup {Hydrate(Word), List1(Hydrate(Word)), Says(Word, "one line"), Says(Date, "two\nlines")}
              \* of these no field can be made
              \cup {List1(List1(Word)), O([type |-> S("object")]), O([type |-> S("array")]), O([description |-> S("no type")]), List1(O([description |-> S("no type")])), O([type |-> S("null")]), O([type |-> S("text")]), O([type |-> A(<<S("string"), S("number")>>)]),
                    Object1([q |-> List1(List1(Word))], {})}
One(v, r) == "article.json" :> Object1([p |-> v, z |-> Word], r)
Base == Object1([id |-> Word, meta |-> Object1([q |-> Date], {"q"})], {"id"})
Image == Object1([url |-> Word, id |-> O([type |-> S("integer")])], {"url"}) 
Compositions == {("article.json" :> Plus(O([type |-> S("object")] @@ p), a @@ o)) @@ ("base.json" :> Base) @@ ("image.json" :> Plus(Image, i)) @@ ("d/video.v1.json" :> Image) :
                 p \in {EmptyFn, [properties |-> O([p |-> Word])], [properties |-> O([p |-> Word, id |-> Date]), required |-> A(<<S("p")>>)]},
                 a \in {EmptyFn, [allOf |-> A(<<Ref("base.json")>>)], [allOf |-> A(<<Ref("base.json"), Ref("d/video.v1.json")>>)], [allOf |-> A(<<Ref("base.json"), Object1([w |-> Word], {"w"})>>)],
                        [allOf |-> A(<<Ref("none.json")>>)]},
                 o \in {EmptyFn, [oneOf |-> A(<<Ref("image.json")>>)], [oneOf |-> A(<<Ref("image.json"), Ref("d/video.v1.json")>>)]},
                 i \in {EmptyFn, [allOf |-> A(<<Ref("base.json")>>)], [allOf |-> A(<<Ref("base.json"), Object1([w |-> Word], {"w"})>>)]}}
ArgSets == {[Plain EXCEPT !.descTag = d, !.noNested = m, !.pointers = p] : d, m, p \in BOOLEAN}
           \cup {[Plain EXCEPT !.embed = TRUE, !.noNested = m, !.pointers = p] : m, p \in BOOLEAN}
           \cup {[Plain EXCEPT !.fields = [p |-> "thing"], !.structs = [article |-> "story", base |-> "Root", image |-> "pic"], !.noNested = m] : m \in BOOLEAN}
ASSUME Cases(SetToSeq({One(v, r) : v \in Properties, r \in {{}, {"p"}, {"p", "z"}}} \cup Compositions), SetToSeq({Question("structs", "article.json", x, "model") : x \in ArgSets}))

\* the sets of one property
single == DOMAIN files = {"article.json"}
P == files["article.json"].o["properties"].o["p"]
Main == Value.files["article.go"].types[1]
FieldNamed(t, name) == LET q == SelectSeq(t.fields, LAMBDA f : f.name = name) IN IF q = <<>> THEN None ELSE q[1]
Under(a) == Structs(files, a, ask.root, ask.pkg)
Instead(v, r) == Structs(One(v, r), args, ask.root, ask.pkg)
NoStars(s) == ReplaceAll(s, "*", "")
\* fields without what is to differ: the texts, the stars, the stars and what the tag says of absence, the names
Edit(f, how) == CASE how = "texts" -> [f EXCEPT !.desc = "", !.doc = ""]
                  [] how = "stars" -> [f EXCEPT !.type = NoStars(@), !.json = SplitNE(@, ",")[1]]
                  [] how = "names" -> [f EXCEPT !.name = IF @ = "Thing" THEN "P" ELSE @, !.type = ReplaceAll(@, "Story", "Article")]
RECURSIVE Everything(_), Mapped(_, _)
Mapped(fields, how) == [j \in DOMAIN fields |-> [Edit(fields[j], how) EXCEPT !.fields = Mapped(@, how)]]
AllTypes(o) == UNION {{<<n, j>> : j \in DOMAIN o.files[n].types} : n \in DOMAIN o.files}
Changed(o, how) == IF o.k # "ok" THEN o ELSE [o EXCEPT !.files = [n \in DOMAIN @ |-> [@[n] EXCEPT !.types = [j \in DOMAIN @ |-> [@[j] EXCEPT !.fields = Mapped(@, how)]]]]]
Everything(fields) == UNION {{fields[j]} \cup Everything(fields[j].fields) : j \in DOMAIN fields}
Fields == UNION {Everything(Value.files[t[1]].types[t[2]].fields) : t \in AllTypes(Value)}

\* where the texts go changes nothing else
Texts == Changed(Under([args EXCEPT !.descTag = ~@]), "texts") = Changed(Value, "texts")
\* pointers change nothing but stars; without they are there for what may be null
Stars == Changed(Under([args EXCEPT !.pointers = ~@]), "stars") = Changed(Value, "stars")
\* whether a property is required shows in its tag, and as a pointer
Required == (Made /\ single) => \A r \in {{}, {"p"}, {"p", "z"}} :
              /\ Changed(Instead(P, r), "stars") = Changed(Value, "stars")
              /\ r = ReqOf(files["article.json"]) => Instead(P, r) = Value
\* a field may be left out of JSON unless it is required
Tags == (Made /\ single) => LET f == FieldNamed(Main, IF "p" \in DOMAIN args.fields THEN "Thing" ELSE "P") z == FieldNamed(Main, "Z") req == ReqOf(files["article.json"]) IN
          /\ f # None => IF "p" \in req THEN f.json = "p" ELSE f.json \in {"p,omitempty", "p,omitzero"}
          /\ z.json = (IF "z" \in req THEN "z" ELSE "z,omitempty") /\ z.type = "string"
\* likewise within
ItemOf(v) == IF Kind(v) = "array" THEN v.o["items"] ELSE v
TagsWithin == (Made /\ single /\ ~args.noNested /\ args.fields = EmptyFn) => LET f == FieldNamed(Main, "P") IN
                f # None => \A j \in DOMAIN f.fields : LET x == SplitNE(f.fields[j].json, ",")[1] IN (x \in ReqOf(ItemOf(P))) <=> f.fields[j].json = x
\* there is no field exactly for what only a resolver gives
NoField == (Made /\ single) => (Virtual(P) <=> Len(Main.fields) = 1)
\* what may be null can be nil
RECURSIVE Nils(_, _)
CanBeNil(type) == HasPrefix(type, "*") \/ HasPrefix(type, "[]") \/ HasPrefix(type, "map[")
Nils(fields, v) == \A x \in DOMAIN Props(v) : LET f == FieldNamed([fields |-> fields], TitleCase(x)) IN
                     f # None => /\ Nullable(Props(v)[x]) => CanBeNil(f.type)
                                 /\ f.fields # <<>> => Nils(f.fields, IF Kind(Props(v)[x]) = "array" THEN Props(v)[x].o["items"] ELSE Props(v)[x])
NullsAreNil == (Made /\ single /\ args.fields = EmptyFn) => Nils(Main.fields, files["article.json"])
\* the structs of their own have the fields nested structs have
RECURSIVE Nest(_, _)
Nest(types, fields) == [j \in DOMAIN fields |->
  LET f == fields[j]
      own == SelectSeq(types, LAMBDA t : HasSuffix(f.type, t.name) /\ NoStars(f.type) \in {t.name, "[]" \o t.name})
  IN IF own = <<>> THEN f ELSE [f EXCEPT !.type = NoStars(SubSeq(f.type, 1, Len(f.type) - Len(own[1].name))) \o "struct", !.fields = Nest(types, own[1].fields)]]
Flat == (Made /\ single /\ args.noNested) =>
          LET other == Under([args EXCEPT !.noNested = FALSE])
          IN other.k = "ok" /\ Mapped(Nest(Tail(Value.files["article.go"].types), Main.fields), "stars") = Mapped(other.files["article.go"].types[1].fields, "stars")
\* a new name is only a name
Renames == (Made /\ single /\ args.fields # EmptyFn) =>
             LET other == Under([args EXCEPT !.fields = EmptyFn, !.structs = EmptyFn])
                 SetOf1(q) == {q[j] : j \in DOMAIN q}
             IN SetOf1(Mapped(Main.fields, "names")) = SetOf1(other.files["article.go"].types[1].fields)
\* times are imported if there are any, and only then
Imports == Made => \A n \in DOMAIN Value.files :
             (Value.files[n].imports = <<"time">>) = (\E j \in DOMAIN Value.files[n].types : \E f \in Everything(Value.files[n].types[j].fields) : HasSuffix(f.type, "time.Time"))
\* names are told apart
Apart == Made => \A n \in DOMAIN Value.files : \A j \in DOMAIN Value.files[n].types :
           LET t == Value.files[n].types[j] IN
           /\ Cardinality({t.fields[m].name : m \in DOMAIN t.fields}) = Len(t.fields)
           /\ \A m \in DOMAIN Value.files[n].types : Value.files[n].types[m].name = t.name => m = j
\* a file for every part; what cannot be made is no part
Files == Made => DOMAIN Value.files \subseteq {"article.go", "base.go", "image.go", "video.go"}
Bad == (~Made /\ single) => P \in {List1(List1(Word)), O([type |-> S("object")]), O([type |-> S("array")]), O([description |-> S("no type")]), List1(O([description |-> S("no type")])), O([type |-> S("null")]), O([type |-> S("text")]), O([type |-> A(<<S("string"), S("number")>>)]),
                                   Object1([q |-> List1(List1(Word))], {})}
==============================================================================
