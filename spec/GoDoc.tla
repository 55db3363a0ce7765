------------------------------- MODULE GoDoc --------------------------------
(* What a document keeps on its way through a generated struct: every value    *)
(* that is declared, but a field which is not required may lose an empty one.  *)
EXTENDS StructGen

\* all that a document of a schema may hold
RECURSIVE AllProps(_)
AllProps(v) == LET q == ListOf(v, "allOf") IN
  Props(v) @@ LET r[j \in 0..Len(q)] == IF j = 0 THEN EmptyFn ELSE r[j - 1] @@ AllProps(q[j]) IN r[Len(q)]
\* of the struct made for a file: a variant is also what the main file says
Holds(c, root, path, variant) ==
  LET own == Load([files |-> c, one |-> BaseName(path), flatten |-> FALSE], path)
      main == Load([files |-> c, one |-> BaseName(path), flatten |-> FALSE], root)
  IN IF ~variant THEN AllProps(own) ELSE AllProps(own) @@ AllProps(main)

NoTime == S("0001-01-01T00:00:00Z")
RECURSIVE Empty(_, _)
\* an empty value for v
Empty(v, val) ==
  CASE val.k = "z" -> TRUE
    [] val.k = "b" -> ~val.b
    [] val.k = "n" -> val.n = "0"
    [] val.k = "s" -> val.s = "" \/ val = NoTime
    [] val.k = "a" -> val.a = <<>>
    [] val.k = "o" -> \A f \in DOMAIN val.o : IF f \in DOMAIN Props(v) THEN Empty(Props(v)[f], TLCEval(val.o[f])) ELSE Filled(Props(v))
RECURSIVE Same(_, _, _, _), Survive(_, _, _, _, _)
\* msgp does not tell empty from missing
Same(how, v, val, res) ==
  CASE val.k = "o" /\ res.k = "o" /\ Filled(Props(v)) -> Survive(how, Props(v), ReqOf(v), TLCEval(val.o), TLCEval(res.o))
    [] val.k = "a" /\ res.k = "a" -> Len(val.a) = Len(res.a) /\ \A j \in DOMAIN val.a : Same(how, TLCEval(Get(v, "items", Nil)), TLCEval(val.a[j]), TLCEval(res.a[j]))
    [] how.msgp /\ res = Nil -> val \in {Nil, A(<<>>), O(EmptyFn)}
    [] OTHER -> val = res
Survive(how, props, req, vals, res) ==
  LET stored == {x \in DOMAIN props : ~Virtual(props[x])} IN
  /\ DOMAIN res \subseteq stored
  /\ \A x \in stored :
       IF x \in DOMAIN vals
       THEN IF x \in DOMAIN res THEN Same(how, props[x], TLCEval(vals[x]), TLCEval(res[x]))
            ELSE x \notin req /\ Empty(props[x], TLCEval(vals[x]))
       ELSE x \notin DOMAIN res \/ (~how.pointers /\ Kind(props[x]) = "date-time" /\ res[x] = NoTime)

\* encoding/json leaves out a field which several structs embedded at the same depth have
RECURSIVE Lost(_, _, _, _)
Lost(decls, level, seen, names) ==
  LET types == SetOf(level) \ seen
      times(x) == {j \in DOMAIN level : level[j] \in types /\ \E f \in SetOf(decls[level[j]].fields) : SplitNE(f.json, ",")[1] = x}
      here == UNION {{SplitNE(f.json, ",")[1] : f \in SetOf(decls[t].fields)} : t \in types}
      RECURSIVE below(_)
      below(j) == IF j = 0 THEN <<>> ELSE below(j - 1) \o (IF level[j] \in types THEN decls[level[j]].embeds ELSE <<>>)
  IN IF types = {} THEN {}
     ELSE {x \in here \ names : Cardinality(times(x)) > 1} \cup Lost(decls, TLCEval(below(Len(level))), seen \cup types, names \cup here)
Decls(c, a, root) ==
  LET all == Structs(c, a, root, "p").files
      own == UNION {SetOf(all[f].types) : f \in DOMAIN all}
      parts == IF a.embed THEN UNION {SetOf(File(c, a, p, NameOf(a, p), <<>>)) : p \in DOMAIN c \cap {"part.json", "extra.json"}} ELSE {}
      ts == own \cup parts
  IN [n \in {t.name : t \in ts} |-> CHOOSE t \in ts : t.name = n]

\* Of the fields of a name the one embedded least counts, and it says what is required.
RECURSIVE Demands(_, _, _, _)
Demands(decls, level, seen, names) ==
  LET types == SetOf(level) \ seen
      fields == UNION {SetOf(decls[t].fields) : t \in types}
      here == {SplitNE(f.json, ",")[1] : f \in fields}
      RECURSIVE below(_)
      below(j) == IF j = 0 THEN <<>> ELSE below(j - 1) \o (IF level[j] \in types THEN decls[level[j]].embeds ELSE <<>>)
  IN IF types = {} THEN {}
     ELSE {x \in here \ names : \A f \in fields : SplitNE(f.json, ",")[1] = x => f.json = x}
          \cup Demands(decls, TLCEval(below(Len(level))), seen \cup types, names \cup here)

DocOf(c, e, gone) ==
  LET props == TLCEval(Holds(c, e.root, e.path, e.variant))
      req == TLCEval(Demands(TLCEval(Decls(c, e.args, e.root)), <<TitleCase(NameOf(e.args, e.path))>>, {}, {}))
  IN Survive([msgp |-> e.how = "msgp", pointers |-> e.args.pointers], [x \in DOMAIN props \ gone |-> props[x]], req, e.in.o, e.out.v.o)
RoundTrip(c, e) == e.out.k = "ok" /\ DocOf(c, e, {})
\* nothing else than such fields is lost
LosesDoubles(c, e) ==
  e.out.k = "ok" /\ DocOf(c, e, TLCEval(Lost(TLCEval(Decls(c, e.args, e.root)), <<TitleCase(NameOf(e.args, e.path))>>, {}, {})))
==============================================================================
