----------------------------- MODULE SmallGraphQL ----------------------------
(* The GraphQL schema for every small property, required or not, and for small  *)
(* compositions of files.                                                      *)
EXTENDS SmallGen

For(v, t) == Plus(v, [target |-> S(t)])
Scalar == {Word, Date, O([type |-> S("integer")]), O([type |-> S("number")]), O([type |-> S("boolean")])}
Resolver == {For(Hydrate(Word), "Thing"), Plus(For(Hydrate(Word), "Thing"), ("graphql-arguments" :> A(<<S("limit: Int"), S("\"which\" ids: [String!]!")>>)))}
Inner == {Object1([q |-> v], r) : v \in {Word, OrNull(Word), Date, List1(Word), Object1([r |-> Word], {"r"})} \cup Resolver, r \in {{}, {"q"}}}
Properties == Scalar \cup {OrNull(v) : v \in Scalar} \cup Resolver \cup Inner \cup {Object1(EmptyFn, {}), For(Word, "Other"), For(Object1([q |-> Word], {}), "Other")}
              \cup {List1(v) : v \in Scalar \cup Resolver \cup Inner \cup {OrNull(Word), Object1(EmptyFn, {}), For(Word, "Other"), For(Object1([q |-> Word], {}), "Other")}}
              \cup {OrNull(v) : v \in {Object1([q |-> Word], {}), List1(Word), List1(Object1([q |-> Word], {}))}}
              \cup {Says(Word, "one\ntwo"), Says(Word, "DEPRECATED: not used\nwhat it was"), Says(List1(Word), "DEPRECATED: gone"), Says(Object1([q |-> Says(Word, "of q")], {}), "of p")}
One(v, r) == "article.json" :> Object1([p |-> v, z |-> Word], r)
Base == Object1([id |-> Word, meta |-> Object1([q |-> Date], {"q"})], {"id"})
Image == Object1([url |-> Word, id |-> O([type |-> S("integer")]), size |-> Object1([w |-> O([type |-> S("integer")])], {})], {"url"})
Compositions == {("article.json" :> O([type |-> S("object")] @@ a @@ o)) @@ ("base.json" :> Base) @@ ("image.json" :> Plus(Image, i)) @@ ("article_video.json" :> Says(Image, "a video")) :
                 a \in {EmptyFn, [allOf |-> A(<<Ref("base.json")>>)]},
                 o \in {EmptyFn, [oneOf |-> A(<<Ref("image.json")>>)], [oneOf |-> A(<<Ref("image.json"), Ref("article_video.json")>>)]},
                 i \in {EmptyFn, [allOf |-> A(<<Ref("base.json")>>)]}}
Base1 == [Plain EXCEPT !.noNested = TRUE, !.importPath = "example.com/m"]
ArgSets == {[Base1 EXCEPT !.pointers = p, !.embed = m] : m, p \in BOOLEAN}
           \cup {[Base1 EXCEPT !.pointers = p, !.fields = [p |-> "thing"], !.gqlTypes = [article |-> "Story", ArticleP |-> "Part", image |-> "Pic"]] : p \in BOOLEAN}
           \cup {[Base1 EXCEPT !.scalarAny = TRUE], [Base1 EXCEPT !.interfaceFiles = TRUE], [Base1 EXCEPT !.interfaceFiles = TRUE, !.embed = TRUE]}
ASSUME Cases(SetToSeq({One(v, r) : v \in Properties, r \in {{}, {"p"}, {"p", "z"}}} \cup Compositions), SetToSeq({Question("graphql", "article.json", x, "story") : x \in ArgSets}))

single == DOMAIN files = {"article.json"}
P == files["article.json"].o["properties"].o["p"]
Under(a) == GraphQL(files, a, ask.root, ask.pkg)
Instead(v, r) == GraphQL(One(v, r), args, ask.root, ask.pkg)
Types1(o) == UNION {{o.files[n].types[j] : j \in DOMAIN o.files[n].types} : n \in DOMAIN o.files}
Lists(o) == UNION {{<<n, j>> : j \in DOMAIN o.files[n].types} : n \in DOMAIN o.files}
FieldsIn(o) == UNION {{t.fields[j] : j \in DOMAIN t.fields} : t \in Types1(o)}
Bare(s) == ReplaceAll(ReplaceAll(ReplaceAll(s, "!", ""), "[", ""), "]", "")
Loose(o) == IF o.k # "ok" THEN o
            ELSE [o EXCEPT !.files = [n \in DOMAIN @ |-> [@[n] EXCEPT !.types = [j \in DOMAIN @ |-> [@[j] EXCEPT !.fields = [m \in DOMAIN @ |-> [@[m] EXCEPT !.type = ReplaceAll(@, "!", "")]]]]]]]
\* every type there is a field of is there, but for those a target names
Closed == Made => \A f \in FieldsIn(Value) : Bare(f.type) \in {"Boolean", "Float", "Int", "String", "DateTime", "Any", "Thing", "Other"} \cup {t.name : t \in Types1(Value)}
\* a list has its length next to it, and nothing else does; of what a resolver gives there is none
Lengths == Made => \A t \in Types1(Value) : \A j \in DOMAIN t.fields :
             t.fields[j].dirs # <<>> /\ t.fields[j].dirs[1] = "goField" => \E m \in DOMAIN t.fields : t.fields[m].name = "total" \o (IF t.fields[j].name = "p" /\ "p" \in DOMAIN args.fields THEN "Thing" ELSE TitleCase(t.fields[j].name)) /\ t.fields[m].type = "Int!"
\* what is required and what pointers are for only decides what may be null
Loosely == (Made /\ single) => /\ \A r \in {{}, {"p"}, {"p", "z"}} : Loose(Instead(P, r)) = Loose(Value)
                               /\ Loose(Under([args EXCEPT !.pointers = ~@])) = Loose(Value)
\* exactly what cannot be null is said not to be: values of simple types, and what is required or no pointer
TheType(name) == CHOOSE t \in Types1(Value) : t.name = name
TheField(t, name) == CHOOSE j \in DOMAIN t.fields : t.fields[j].name = name
Simple1 == Kind(P) \in {"string", "integer", "number", "boolean"} /\ Target(P) = ""
Objects == Kind(P) = "object" /\ Target(P) = "" /\ DOMAIN Props(P) # {}
NotNull(t, name) == HasSuffix(t.fields[TheField(t, name)].type, "!")
Sure == (Made /\ single /\ args.gqlTypes = EmptyFn) => LET t == TheType("Article") r == "p" \in ReqOf(files["article.json"]) IN
          /\ NotNull(t, "z")
          /\ Simple1 => (NotNull(t, "p") <=> (~Nullable(P) \/ r \/ ~args.pointers))
          /\ Objects => (NotNull(t, "p") <=> (r \/ ~args.pointers))
          /\ Kind(P) = "array" /\ ~Hydrated(P.o["items"]) => (NotNull(t, "p") <=> (~Nullable(P) /\ (r \/ ~args.pointers)))
          /\ (Objects /\ P.o["properties"].o["q"].k = "o" /\ Kind(P.o["properties"].o["q"]) \in {"object", "array"}) =>
               (NotNull(TheType("ArticleP"), "q") <=> ("q" \in ReqOf(P) \/ ~args.pointers))
          /\ (Objects /\ P.o["properties"].o["q"] = OrNull(Word)) => (NotNull(TheType("ArticleP"), "q") <=> ("q" \in ReqOf(P) \/ ~args.pointers))
\* more that is required is never less certain
Certain(f) == Len(SelectSeq([j \in 1..Len(f.type) |-> Ch(f.type, j)], LAMBDA x : x = "!"))
Grows == (Made /\ single) => LET more == Instead(P, {"p", "z"}) IN
           \A x \in Lists(Value) : \A j \in DOMAIN Value.files[x[1]].types[x[2]].fields :
             Certain(Value.files[x[1]].types[x[2]].fields[j]) <= Certain(more.files[x[1]].types[x[2]].fields[j])
\* without pointers what is no pointer in Go is never null
Never == (Made /\ single /\ ~args.pointers) => \A f \in FieldsIn(Value) : (Bare(f.type) \in {"String", "Int", "Float", "Boolean"} /\ f.name # "p") => HasSuffix(f.type, "!")
\* names are told apart
Apart == Made => /\ \A t \in Types1(Value) : Cardinality({t.fields[j].name : j \in DOMAIN t.fields}) = Len(t.fields)
                 /\ \A x, y \in Lists(Value) : x # y => Value.files[x[1]].types[x[2]].name # Value.files[y[1]].types[y[2]].name
\* interface files only divide the types
Divided == Made => Types1(Under([args EXCEPT !.interfaceFiles = ~@])) = Types1(Value)
\* the scalar is declared where it is wanted, changes nothing else
Scalars == Made => LET o == Under([args EXCEPT !.scalarAny = ~@]) IN Types1(o) = Types1(Value) /\ \A n \in DOMAIN Value.files : Value.files[n].any = (args.scalarAny /\ n = "article.graphqls")
\* all of an interface is in what implements it
Implemented == Made => \A t \in Types1(Value) : t.implements # "" =>
                 \E i \in Types1(Value) : /\ i.kind = "interface" /\ i.name = t.implements
                                          /\ \A j \in DOMAIN i.fields : \E m \in DOMAIN t.fields : t.fields[m].name = i.fields[j].name
Deprecated == Made => \A f \in FieldsIn(Value) : ~HasPrefix(f.doc, "DEPRECATED")
==============================================================================
