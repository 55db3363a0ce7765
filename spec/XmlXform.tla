------------------------------ MODULE XmlXform ------------------------------
(* What an XML transform computes.  The input is a tree of records             *)
(*   [t |-> "e", name, attrs, kids]  an element, attrs a sequence of <<name,value>> *)
(*   [t |-> "t", s]                  text                                      *)
(*   [k |-> "doc", kids]             the document, [k |-> "bad"] what is not XML *)
(* The value of a node depends on its context only: the document, or the       *)
(* element which an enclosing object or array selected, which then is the root *)
(* of every path.  A value selected from XML is X(refs), refs are positions    *)
(* [p, a]: child indexes from the document and an attribute ("" for none).     *)
EXTENDS JsonXform

RECURSIVE At(_, _)
At(node, p) == IF p = <<>> THEN node ELSE At(node.kids[Head(p)], Tail(p))
IsElem(node) == "t" \in DOMAIN node /\ node.t = "e"
IsText(node) == "t" \in DOMAIN node /\ node.t = "t"
KidsOf(node) == IF IsText(node) THEN <<>> ELSE node.kids
Ref(p) == [p |-> p, a |-> ""]
AttrOf(node, name) == LET hits == SelectSeq(node.attrs, LAMBDA x : x[1] = name) IN hits[1][2]
HasAttr(node, name) == IsElem(node) /\ \E j \in DOMAIN node.attrs : node.attrs[j][1] = name

RECURSIVE TextOf(_)
TextOf(node) == IF IsText(node) THEN node.s
                ELSE LET ks == KidsOf(node) IN CatAll([j \in DOMAIN ks |-> TextOf(ks[j])])
InnerText(doc, r) == IF r.a # "" THEN AttrOf(At(doc, r.p), r.a) ELSE TextOf(At(doc, r.p))
HasChildElement(doc, r) == r.a = "" /\ \E j \in DOMAIN KidsOf(At(doc, r.p)) : IsElem(KidsOf(At(doc, r.p))[j])

NodeTest(st, node) == CASE st.test = "name" -> IsElem(node) /\ node.name = st.name
                        [] st.test = "any" -> IsElem(node)
                        [] st.test = "text" -> IsText(node)
                        [] OTHER -> FALSE
\* the predicate for the node at index i of what the step matches below one parent
Holds(pred, node, i) ==
  CASE pred.t = "none" -> TRUE
    [] pred.t = "idx" -> i = pred.i
    [] pred.t = "attr" -> HasAttr(node, pred.name)
    [] pred.t = "attreq" -> HasAttr(node, pred.name) /\ AttrOf(node, pred.name) = pred.s
    [] pred.t = "child" -> \E j \in DOMAIN node.kids : IsElem(node.kids[j]) /\ node.kids[j].name = pred.name
    [] pred.t = "childeq" -> \E j \in DOMAIN node.kids : IsElem(node.kids[j]) /\ node.kids[j].name = pred.name /\ TextOf(node.kids[j]) = pred.s

ChildMatches(doc, st, p) ==
  LET ks == KidsOf(At(doc, p))
      ms == SelectSeq([j \in DOMAIN ks |-> j], LAMBDA j : NodeTest(st, ks[j]))
      ok == SelectSeq([i \in DOMAIN ms |-> i], LAMBDA i : Holds(st.pred, ks[ms[i]], i))
  IN [i \in DOMAIN ok |-> Ref(Append(p, ms[ok[i]]))]
RECURSIVE DescMatches(_, _, _)
DescMatches(doc, st, p) == \* of the nodes below p, in document order
  LET ks == KidsOf(At(doc, p)) IN
  Flat([j \in DOMAIN ks |-> (IF NodeTest(st, ks[j]) /\ Holds(st.pred, ks[j], j) THEN <<Ref(Append(p, j))>> ELSE <<>>)
                            \o DescMatches(doc, st, Append(p, j))])
StepMatches(doc, st, r) ==
  CASE st.test = "self" -> <<r>>
    [] r.a # "" -> IF st.test = "text" /\ st.axis # "desc" THEN <<r>> ELSE <<>>
    [] st.test = "attr" -> IF HasAttr(At(doc, r.p), st.name) THEN <<[p |-> r.p, a |-> st.name]>> ELSE <<>>
    [] st.axis = "desc" -> DescMatches(doc, st, r.p)
    [] OTHER -> ChildMatches(doc, st, r.p)
RECURSIVE XEval(_, _, _)
XEval(doc, path, refs) == IF path = <<>> THEN refs
                          ELSE XEval(doc, Tail(path), Flat([j \in DOMAIN refs |-> StepMatches(doc, Head(path), refs[j])]))

------------------------------------------------------------------------------
\* several nodes are one string, joined with spaces, and otherwise the first
XFromValue(f, type, doc, ctx) ==
  LET refs == IF f.path = <<>> THEN <<>> ELSE XEval(doc, f.path, <<ctx>>)
      texts == [j \in DOMAIN refs |-> InnerText(doc, refs[j])]
      leaf == Len(refs) = 1 /\ ~HasChildElement(doc, refs[1])
      conv(s) == ToType(S(s), type)
      other == IF f.ops = <<>> THEN Nil ELSE IF leaf THEN S(texts[1]) ELSE X(refs)
      v == IF refs = <<>> THEN Nil
           ELSE IF type = "nodes" /\ f.ops = <<>> THEN X(refs)
           ELSE IF leaf THEN (IF IsErr(conv(texts[1])) THEN other ELSE conv(texts[1]))
           ELSE IF type \in {"array", "object", "nodes"} THEN X(refs)
           ELSE IF type = "string" THEN S(JoinStr(texts, " "))
           ELSE IF IsErr(conv(texts[1])) THEN other ELSE conv(texts[1])
  IN IF f.bad THEN Err ELSE IF v.k = "z" THEN Nil ELSE OpChain(f.ops, v)
\* arrays and objects are made from nodes
XTransformed(node, id, doc, ctx) ==
  LET trs == TransformFor(node, id)
      type == IF node.t = "array" \/ (node.t = "object" /\ ~node.free) THEN "nodes" ELSE node.t IN
  IF trs = <<>> THEN Nil
  ELSE Combine(trs[1], LAMBDA i : XFromValue(trs[1].from[i], type, doc, ctx))
\* an item without instructions is the text of its node
XItemText(node, id, doc, ref) ==
  LET v == ToType(S(InnerText(doc, ref)), node.t) IN
  IF node.t \in {"array", "object"} \/ TransformFor(node, id) # <<>> \/ IsErr(v) THEN Nil ELSE v

RECURSIVE XNodeValue(_, _, _, _)
XScalarValue(node, id, doc, ctx) ==
  LET tv == XTransformed(node, id, doc, ctx) IN IF tv.k # "z" THEN tv ELSE Default(node)
XArrayValue(node, id, doc, ctx) ==
  LET tv == XTransformed(node, id, doc, ctx)
      base == CASE tv.k = "x" -> [j \in DOMAIN tv.x |-> X(<<tv.x[j]>>)]
                [] tv.k = "a" -> tv.a
                [] tv.k = "z" -> IF node.def # <<>> /\ node.def[1].k = "a" THEN node.def[1].a ELSE <<>>
                [] OTHER -> <<tv>>
      vs == [j \in DOMAIN base |-> IF base[j].k = "x" THEN (LET v == XItemText(node.items[1], id, doc, base[j].x[1]) IN
                                                                    IF v # Nil THEN v ELSE XNodeValue(node.items[1], id, doc, base[j].x[1]))
                                              ELSE base[j]]
      kept == SelectSeq(vs, LAMBDA v : v.k # "z")
  IN IF IsErr(tv) \/ (\E j \in DOMAIN vs : IsErr(vs[j])) THEN Err ELSE IF kept = <<>> THEN Nil ELSE A(kept)
XObjectValue(node, id, doc, ctx) ==
  LET has == TransformFor(node, id) # <<>>
      tv == XTransformed(node, id, doc, ctx)
      def == IF node.def # <<>> /\ node.def[1].k = "o" THEN node.def[1].o ELSE EmptyFn
      in == IF has THEN tv.x[1] ELSE ctx
      empty == has /\ tv.k = "x" /\ Len(tv.x) = 1 /\ tv.x[1].a = "" /\ IsElem(At(doc, tv.x[1].p))
               /\ At(doc, tv.x[1].p).attrs = <<>> /\ At(doc, tv.x[1].p).kids = <<>>
      vals == [j \in DOMAIN node.props |-> XNodeValue(node.props[j], id, doc, in)]
      set == {j \in DOMAIN vals : vals[j].k # "z"}
      names == {node.props[j].name : j \in set}
      at(f) == vals[CHOOSE j \in set : node.props[j].name = f]
      all == [f \in DOMAIN def \cup names |-> IF f \in names THEN at(f) ELSE def[f]]
  IN IF has /\ tv.k = "z" THEN (IF node.def # <<>> /\ node.def[1].k = "o" THEN node.def[1] ELSE Nil)
     ELSE IF has /\ (tv = S("") \/ empty) THEN Nil \* an empty tag
     ELSE IF has /\ tv.k # "x" THEN Err
     ELSE IF \E j \in DOMAIN vals : IsErr(vals[j]) THEN Err
     ELSE IF DOMAIN all = {} THEN Nil ELSE O(all)
XNodeValue(node, id, doc, ctx) ==
  CASE node.t = "object" /\ ~node.free -> XObjectValue(node, id, doc, ctx)
    [] node.t = "array" -> XArrayValue(node, id, doc, ctx)
    [] OTHER -> XScalarValue(node, id, doc, ctx)

XmlTransform(root, id, in) ==
  LET v == XNodeValue(root, id, in, Ref(<<>>)) IN
  IF IsErr(v) \/ ~Marshals(v) THEN Err ELSE Erase(v)
=============================================================================
