------------------------------- MODULE SmallRefs -----------------------------
(* References: a file with a property and a definition, another in a directory  *)
(* below, and two of the same name in both directories.                        *)
EXTENDS SmallFiles

Forms(r) == {Ref(r), Plus(Ref(r), [description |-> S("here")]), Plus(Ref(r), [properties |-> O([q |-> Num1])]), Obj([q |-> Ref(r)]), Arr(Ref(r))}
MainRefs == {"#/definitions/d", "#/properties/p", "#/definitions/d/properties/q", "main.json#/definitions/d", "sub/b.json", "./sub/b.json#/definitions/d",
             "sub/b.json#/properties/p", "#", "#/definitions/none", "none.json", "c.json#/properties/p", "sub/../sub/c.json#/properties/p"}
SubRefs == {"#/definitions/d", "#/properties/p", "c.json", "../c.json#/properties/p", "../main.json#/definitions/d"}
File(p, d) == O([type |-> S("object"), properties |-> O([p |-> p]), definitions |-> O([d |-> d])])
Here == {Text, Obj([q |-> Text])}
Mains == {File(p, d) : p \in Here \cup UNION {Forms(r) : r \in MainRefs}, d \in Here \cup {Plus(Ref(r), [description |-> S("there")]) : r \in {"#/properties/p", "sub/b.json", "c.json#/properties/p", "sub/b.json#/definitions/d"}}}
Subs == {File(Text, d) : d \in Here \cup UNION {{Ref(r), Arr(Ref(r))} : r \in SubRefs}}
Top == Obj([p |-> Plus(Text, [description |-> S("of c")])])
Low == Obj([p |-> Plus(Num1, [description |-> S("of sub/c")])])
ASSUME Cases(SetToSeq({("main.json" :> m) @@ ("sub/b.json" :> b) @@ ("c.json" :> Top) @@ ("sub/c.json" :> Low) : m \in Mains, b \in Subs}),
             <<Loads("main.json", "", TRUE), Loads("sub/b.json", "", TRUE), Loads("main.json", "", FALSE)>>)

RECURSIVE RefTexts(_)
RefTexts(v) == CASE v.k = "a" -> UNION {RefTexts(v.a[j]) : j \in DOMAIN v.a}
                 [] v.k = "o" -> (IF IsRef(v) THEN {v.o["$ref"].s} ELSE {}) \cup UNION {RefTexts(v.o[x]) : x \in DOMAIN v.o}
                 [] OTHER -> {}
\* no reference is left
NoneLeft == ~IsErr(Value) => RefTexts(Value) = {}

\* The failures, told by the graphs of the files and of the places in each: of what is referred to something is not there,
\* or something leads back to itself.
RECURSIVE Closure(_, _)
Closure(edges, from) == LET more == {e[2] : e \in {e \in edges : e[1] \in from}} IN IF more \subseteq from THEN from ELSE Closure(edges, from \cup more)
Circular(edges) == \E e \in edges : e[1] \in Closure(edges, {e[2]})
Between == UNION {{<<f, FileOf(f, r)>> : r \in {r \in RefTexts(files[f]) : FileOf(f, r) # f}} : f \in DOMAIN files}
Needed(f) == LET between == TLCEval(Between) IN Closure(between, {f})
Places(f) == {<<>>} \cup {Location(r) : r \in {r \in RefTexts(files[f]) : FileOf(f, r) = f}}
Within(f) == UNION {{<<p, Location(r)>> : r \in {r \in RefTexts(Lookup(files[f], p)) : FileOf(f, r) = f}} : p \in {p \in Places(f) : ~IsErr(Lookup(files[f], p))}}
Dangling(f) == \E r \in RefTexts(files[f]) : FileOf(f, r) \notin DOMAIN files \/ IsErr(Lookup(files[FileOf(f, r)], Location(r)))
FailsExactly == LET between == TLCEval(Between)
                    needed == TLCEval(Closure(between, {ask.file}))
                IN IsErr(Value) <=> \/ \E f \in needed \cap DOMAIN files : Dangling(f) \/ Circular(TLCEval(Within(f)))
                                    \/ Circular({e \in between : e[1] \in needed})

\* every place that refers says to what, and keeps what it says itself
At(v, loc) == Lookup(v, loc)
SaysFrom == ~IsErr(Value) => \A loc \in {<<"properties", "p">>, <<"definitions", "d">>, <<"properties", "p", "properties", "q">>, <<"properties", "p", "items">>, <<"definitions", "d", "items">>} :
            LET was == At(files[ask.file], loc) is == At(Value, loc) IN
            (~IsErr(was) /\ IsRef(was)) => /\ is.o["fromRef"] = was.o["$ref"]
                                           /\ \A x \in DOMAIN was.o \ {"$ref"} : is.o[x] = was.o[x]
\* a path is relative to the file it is in
Relative == ~IsErr(Value) =>
  LET main == At(Value, <<"properties", "p">>) sub == At(Value, <<"definitions", "d">>)
      says(v, text) == Get(v, "description", Nil) = S(text)
  IN /\ (ask.file = "main.json" /\ At(files["main.json"], <<"properties", "p">>) = Ref("c.json#/properties/p")) => says(main, "of c")
     /\ (ask.file = "main.json" /\ At(files["main.json"], <<"properties", "p">>) = Ref("sub/../sub/c.json#/properties/p")) => says(main, "of sub/c")
     /\ (ask.file = "sub/b.json" /\ At(files["sub/b.json"], <<"definitions", "d">>) = Ref("c.json")) => says(At(sub, <<"properties", "p">>), "of sub/c")
     /\ (ask.file = "sub/b.json" /\ At(files["sub/b.json"], <<"definitions", "d">>) = Ref("../c.json#/properties/p")) => says(sub, "of c")
\* what a reference leads to may be written in its place
With(f, p) == [files EXCEPT ![f] = O([@.o EXCEPT !["properties"] = O([p |-> p])])]
InPlace == ~IsErr(Value) => Load(Ctx(With(ask.file, Value.o["properties"].o["p"]), ask), ask.file) = Value
\* a part of another file is what the file has there when it is loaded for itself
Alone == LET p == At(files[ask.file], <<"properties", "p">>) IN
         (~IsErr(Value) /\ IsRef(p) /\ FileOf(ask.file, p.o["$ref"].s) # ask.file)
           => LET g == FileOf(ask.file, p.o["$ref"].s)
                  there == Lookup(Load(Ctx(files, ask), g), Location(p.o["$ref"].s))
                  is == Value.o["properties"].o["p"]
              IN \A x \in (DOMAIN there.o \ DOMAIN p.o) \ {"fromRef"} : is.o[x] = there.o[x]
\* files that are not needed do not matter
Others == LET needed == Needed(ask.file) \cap DOMAIN files IN Value = Load(Ctx([f \in needed |-> files[f]], ask), ask.file)
==============================================================================
