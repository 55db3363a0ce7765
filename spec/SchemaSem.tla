------------------------------ MODULE SchemaSem ------------------------------
(* What loading a schema file yields.  Files are JSON values tagged by kind    *)
(* (see Val), named by their path.  A load is for a oneOf type c.one, with or  *)
(* without flattening, among the files c.files.                                *)
EXTENDS Val

Has(v, key) == v.k = "o" /\ key \in DOMAIN v.o
Get(v, key, default) == IF Has(v, key) THEN v.o[key] ELSE default
ListOf(v, key) == IF Has(v, key) /\ v.o[key].k = "a" THEN v.o[key].a ELSE <<>>
FieldsOf(v, key) == IF Has(v, key) /\ v.o[key].k = "o" THEN v.o[key].o ELSE EmptyFn

------------------------------------------------------------------------------
(* References: path # location, the path relative to the file that refers.     *)
Trim(s) == LET a == IF HasPrefix(s, "/") THEN Drop(s, 1) ELSE s IN IF HasSuffix(a, "/") THEN Take(a, Len(a) - 1) ELSE a
PathOf(ref) == SplitNE(ref, "#")[1]
Location(ref) == LET p == SplitNE(ref, "#")
                     t == IF Len(p) > 1 THEN Trim(p[2]) ELSE ""
                 IN IF t = "" THEN <<>> ELSE SplitNE(t, "/")
RECURSIVE Clean(_, _)
Clean(done, segs) ==
  IF segs = <<>> THEN done
  ELSE LET s == segs[1] rest == SubSeq(segs, 2, Len(segs)) IN
       IF s \in {".", ""} THEN Clean(done, rest)
       ELSE IF s = ".." /\ done # <<>> THEN Clean(SubSeq(done, 1, Len(done) - 1), rest)
       ELSE Clean(Append(done, s), rest)
Remote(path) == HasPrefix(path, "http://") \/ HasPrefix(path, "https://")
FileOf(f, ref) ==
  LET p == PathOf(ref)
      dir == LET q == SplitNE(f, "/") IN SubSeq(q, 1, Len(q) - 1)
  IN IF p = "" THEN f ELSE IF Remote(p) THEN p ELSE JoinStr(Clean(<<>>, dir \o SplitNE(p, "/")), "/")

RECURSIVE Lookup(_, _)
Lookup(v, loc) == IF IsErr(v) \/ loc = <<>> THEN v
                  ELSE IF Has(v, loc[1]) THEN Lookup(v.o[loc[1]], SubSeq(loc, 2, Len(loc))) ELSE Err

------------------------------------------------------------------------------
(* What of a schema the package knows.                                         *)
Known == {"additionalProperties", "allOf", "anyOf", "description", "definitions", "embed", "format", "fromRef", "graphql-arguments",
          "items", "oneOf", "properties", "$ref", "required", "$schema", "target", "type"}
EmptyValue(v) == \/ v.k = "z" \/ v = S("") \/ v = B(FALSE)
                 \/ (v.k = "a" /\ v.a = <<>>)
                 \/ (v.k = "o" /\ DOMAIN v.o = {})
Kept(v) == {x \in DOMAIN v.o : x \in Known /\ (~EmptyValue(v.o[x]) \/ (x \in {"items", "definitions"} /\ v.o[x].k # "z"))}
RECURSIVE Project(_)
Project(v) == O([x \in Kept(v) |-> IF x \in {"allOf", "anyOf", "oneOf"} THEN A([j \in DOMAIN v.o[x].a |-> Project(v.o[x].a[j])]) ELSE v.o[x]])

------------------------------------------------------------------------------
(* allOf, and of oneOf those which come from the wanted type, are merged into   *)
(* the file.  What is in the file wins, then what comes first.                  *)
BaseName(ref) == LET q == SplitNE(ref, "/") IN SplitNE(q[Len(q)], ".")[1]
Wanted(c, e) == BaseName(IF Has(e, "fromRef") THEN e.o["fromRef"].s ELSE "") = c.one
RECURSIVE MergeProps(_, _)
MergeProps(p, es) == IF es = <<>> THEN p ELSE MergeProps(p @@ FieldsOf(es[1], "properties"), SubSeq(es, 2, Len(es)))
RECURSIVE MergeReq(_, _)
MergeReq(q, es) == IF es = <<>> THEN q ELSE MergeReq(q \o ListOf(es[1], "required"), SubSeq(es, 2, Len(es)))
Merge(c, D) ==
  LET all == [j \in DOMAIN ListOf(D, "allOf") |-> Project(ListOf(D, "allOf")[j])]
      any == [j \in DOMAIN ListOf(D, "anyOf") |-> Project(ListOf(D, "anyOf")[j])]
      one == [j \in DOMAIN ListOf(D, "oneOf") |-> Project(ListOf(D, "oneOf")[j])]
      merged == (IF c.flatten \/ ~Has(D, "properties") THEN all ELSE <<>>) \o SelectSeq(one, LAMBDA e : Wanted(c, e))
      props == MergeProps(FieldsOf(D, "properties"), merged)
      req == MergeReq(ListOf(D, "required"), merged)
      withItems == SelectSeq(merged, LAMBDA e : Has(e, "items"))
      put(key, v, keep) == IF keep THEN (key :> v) ELSE EmptyFn
  IN O(put("properties", O(props), DOMAIN props # {})
       @@ put("required", A(req), req # <<>>)
       @@ put("items", withItems[1].o["items"], ~Has(D, "items") /\ withItems # <<>>)
       @@ put("additionalProperties", B(TRUE), ~Has(D, "additionalProperties"))
       @@ put("allOf", A(all), all # <<>>) @@ put("anyOf", A(any), any # <<>>) @@ put("oneOf", A(one), one # <<>>)
       @@ D.o)

------------------------------------------------------------------------------
(* Every reference is replaced by what it refers to, together with where it     *)
(* comes from; keys next to the reference win.  A reference into another file   *)
(* refers to that file as loaded.  st holds what is being resolved: a reference *)
(* which leads back to itself is an error.                                      *)
IsRef(v) == Has(v, "$ref") /\ v.o["$ref"].k = "s"
RECURSIVE Deref(_, _, _, _), Resolve(_, _, _, _), Expanded(_, _, _)
Deref(c, f, v, st) ==
  CASE v.k = "a" -> LET q == TLCEval([j \in DOMAIN v.a |-> Deref(c, f, v.a[j], st)]) IN
                    IF \E j \in DOMAIN q : IsErr(q[j]) THEN Err ELSE A(q)
    [] v.k = "o" -> LET keys == DOMAIN v.o \ (IF IsRef(v) THEN {"$ref"} ELSE {})
                        kids == TLCEval([x \in keys |-> Deref(c, f, v.o[x], st)])
                    IN IF \E x \in keys : IsErr(kids[x]) THEN Err
                       ELSE IF ~IsRef(v) THEN O(kids)
                       ELSE LET b == TLCEval(Resolve(c, f, v.o["$ref"].s, st)) IN
                            IF IsErr(b) THEN Err ELSE O(TLCEval(kids @@ ("fromRef" :> v.o["$ref"]) @@ b.o))
    [] OTHER -> v
Loading(g) == <<g, <<"", "load">>>>
Resolve(c, f, ref, st) ==
  LET g == FileOf(f, ref) loc == Location(ref) IN
  IF g \notin DOMAIN c.files THEN Err
  ELSE IF Remote(g) THEN Lookup(c.files[g], loc)
  ELSE IF g = f THEN IF <<f, loc>> \in st \/ IsErr(Lookup(c.files[f], loc)) THEN Err
                     ELSE Deref(c, f, Lookup(c.files[f], loc), st \cup {<<f, loc>>})
  ELSE IF Loading(g) \in st \/ IsErr(Lookup(c.files[g], loc)) THEN Err
  ELSE Lookup(Expanded(c, g, st \cup {Loading(g)}), loc)
Expanded(c, f, st) == LET D == TLCEval(Deref(c, f, c.files[f], st)) IN IF IsErr(D) THEN Err ELSE TLCEval(Merge(c, D))
Load(c, f) == LET e == Expanded(c, f, {Loading(f)}) IN IF IsErr(e) THEN Err ELSE Project(e)
\* what the file does not say is allowed
AllowsMore(c, f) == LET e == Expanded(c, f, {Loading(f)}) IN ~IsErr(e) /\ Get(e, "additionalProperties", B(TRUE)) = B(TRUE)

\* Two notations of one schema are the same: a type is a list of types, what only states a default is left out, and
\* the order of the required names does not matter.
Redundant(key, v) == \/ key = "type" /\ v.k = "z"
                     \/ key = "additionalProperties" /\ v = B(TRUE)
                     \/ key = "properties" /\ v.k = "o" /\ DOMAIN v.o = {}
                     \/ key = "required" /\ v.k = "a" /\ v.a = <<>>
RECURSIVE Norm(_)
Norm(v) ==
  CASE v.k = "a" -> A([j \in DOMAIN v.a |-> Norm(v.a[j])])
    [] v.k = "o" -> O([x \in {x \in DOMAIN v.o : ~Redundant(x, v.o[x])} |->
                        IF x = "type" /\ v.o[x].k = "s" THEN A(<<v.o[x]>>)
                        ELSE IF x = "required" /\ v.o[x].k = "a" THEN [k |-> "set", set |-> {v.o[x].a[j] : j \in DOMAIN v.o[x].a}]
                        ELSE Norm(v.o[x])])
    [] OTHER -> v

------------------------------------------------------------------------------
(* The types of a file: its own references and properties, nothing is loaded.  *)
RefsIn(v, key) == [j \in DOMAIN ListOf(v, key) |-> IF IsRef(ListOf(v, key)[j]) THEN ListOf(v, key)[j].o["$ref"].s ELSE ""]
=============================================================================
