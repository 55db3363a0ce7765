------------------------------ MODULE JsonXform ------------------------------
(* What a JSON transform computes: the value of every schema node as a function *)
(* of the node and the input.  A node is a record                               *)
(*   t      "object", "array", "string", "number", "integer", "boolean",        *)
(*          "date-time" (a string with that format)                             *)
(*   name   the property name                                                   *)
(*   free   an object whose "properties" is empty: it is copied as it is        *)
(*   props  the nodes of an object's properties                                 *)
(*   items  sequence of the node of an array's items (one or none)              *)
(*   tr     sequence of transforms, [id, method, delim, from]                   *)
(*   def    sequence of the default value (one or none)                         *)
(* A from entry is [rel, path, ops]; rel marks a path relative to the parent.   *)
(*                                                                              *)
(* The library visits the fields of an object in no particular order, so every  *)
(* value below depends on the node's own input only, never on a sibling.        *)
EXTENDS Ops

KeyStep(name) == [t |-> "key", key |-> name]
IdxStep(i) == [t |-> "idx", i |-> i]
WildStep == [t |-> "wild"]

\* paths inside an array are written with [*] for the item which is being built
BindOne(p, b) == IF Len(p) > Len(b.pre) /\ SubSeq(p, 1, Len(b.pre)) = b.pre /\ p[Len(b.pre) + 1].t = "wild"
                 THEN b.pre \o <<IdxStep(b.i)>> \o SubSeq(p, Len(b.pre) + 2, Len(p)) ELSE p
RECURSIVE Bind(_, _)
Bind(p, binds) == IF binds = <<>> THEN p ELSE Bind(BindOne(p, Head(binds)), Tail(binds))

\* what @ stands for: the item itself for an array of scalars, else the parent of the field
RelBase(node, spath) == IF spath[Len(spath)].t = "wild" THEN spath ELSE SubSeq(spath, 1, Len(spath) - 1)

TransformFor(node, id) == SelectSeq(node.tr, LAMBDA t : t.id = id)

------------------------------------------------------------------------------
\* the value of one from entry: Nil if there is nothing at its path
FromValue(f, node, in, spath, binds) ==
  LET p == Bind(IF f.rel THEN RelBase(node, spath) \o f.path ELSE f.path, binds)
      raw == Eval(p, in)
      type == IF node.t = "array" \/ node.t = "object" THEN node.t ELSE node.t
      conv == Convert(raw, type)
      v == IF IsErr(conv) THEN raw ELSE conv
  IN IF raw = None \/ raw.k = "z" \/ v.k = "z" THEN Nil ELSE OpChain(f.ops, v)

Concat(a, b, delim) ==
  CASE a.k = "z" -> b
    [] b.k = "z" -> a
    [] a.k = "s" /\ b.k = "s" -> S(a.s \o (IF a.s # "" /\ b.s # "" THEN delim ELSE "") \o b.s)
    [] OTHER -> Err

FirstOf(n, F(_)) == \* F(1), F(2) .. F(n) in turn until one is not Nil
  LET RECURSIVE Go(_)
      Go(i) == IF i > n THEN Nil ELSE LET v == F(i) IN IF v.k = "z" THEN Go(i + 1) ELSE v
  IN Go(1)
ConcatAll(n, F(_), delim) ==
  LET RECURSIVE Go(_, _)
      Go(i, acc) == IF i > n \/ IsErr(acc) THEN acc
                    ELSE LET v == F(i) IN Go(i + 1, IF IsErr(v) THEN Err ELSE Concat(acc, v, delim))
  IN Go(1, Nil)

Combine(tr, F(_)) ==
  LET n == Len(tr.from) IN
  CASE tr.method = "last" -> FirstOf(n, LAMBDA i : F(n + 1 - i))
    [] tr.method = "concatenate" -> ConcatAll(n, F, tr.delim)
    [] OTHER -> FirstOf(n, F)

\* the result of the transform for the identifier, Nil without one
Transformed(node, id, in, spath, binds) ==
  LET trs == TransformFor(node, id) IN
  IF trs = <<>> THEN Nil
  ELSE Combine(trs[1], LAMBDA i : FromValue(trs[1].from[i], node, in, spath, binds))

Default(node) == IF node.def = <<>> THEN Nil ELSE node.def[1]

------------------------------------------------------------------------------
\* in with v at path p: what the items of a transformed array see
RECURSIVE Put(_, _, _, _)
Put(cur, p, slot, v) ==
  IF p = <<>> THEN v
  ELSE IF Head(p).t = "key"
  THEN LET m == IF cur.k = "o" THEN cur.o ELSE EmptyFn
           key == Head(p).key
           sub == Put(IF key \in DOMAIN m THEN m[key] ELSE Nil, Tail(p), FALSE, v)
       IN IF cur.k \notin {"o", "z"} /\ ~slot THEN Err
          ELSE IF IsErr(sub) THEN Err
          ELSE O([f \in DOMAIN m \cup {key} |-> IF f = key THEN sub ELSE m[f]])
  ELSE LET a == IF cur.k = "a" THEN cur.a ELSE <<>>
           n == Head(p).i + 1
           b == [j \in 1..(IF Len(a) > n THEN Len(a) ELSE n) |-> IF j <= Len(a) THEN a[j] ELSE Nil]
           sub == Put(b[n], Tail(p), TRUE, v)
       IN IF IsErr(sub) THEN Err ELSE A([b EXCEPT ![n] = sub])
PutBase(in, p, v) ==
  IF p = <<>> THEN v
  ELSE IF (in.k = "o" /\ Head(p).t = "key") \/ (in.k = "a" /\ Head(p).t = "idx") THEN Put(in, p, FALSE, v)
  ELSE Err

RECURSIVE NodeValue(_, _, _, _, _)
ScalarValue(node, id, in, spath, binds) ==
  LET tv == Transformed(node, id, in, spath, binds)
      same == Eval(Bind(spath, binds), in)
      conv == Convert(IF same = None THEN Nil ELSE same, node.t)
  IN IF tv.k # "z" THEN tv
     ELSE IF conv.k # "z" /\ ~IsErr(conv) THEN conv
     ELSE Default(node)

\* [v, changed]: the array before its items are built and whether the input differs from it
ArrayBase(node, id, in, spath, binds) ==
  LET tv == Transformed(node, id, in, spath, binds)
      same == Eval(Bind(spath, binds), in)
      wrap(v) == IF v.k = "a" THEN v ELSE A(<<v>>)
  IN IF IsErr(tv) THEN [v |-> Err, changed |-> FALSE]
     ELSE IF tv.k # "z" THEN [v |-> wrap(tv), changed |-> TRUE]
     ELSE IF same # None /\ same.k # "z" THEN [v |-> wrap(same), changed |-> same.k # "a"]
     ELSE IF node.def # <<>> THEN [v |-> Default(node), changed |-> TRUE]
     ELSE [v |-> Nil, changed |-> FALSE]
ArrayValue(node, id, in, spath, binds) ==
  LET p == Bind(spath, binds)
      base == ArrayBase(node, id, in, spath, binds)
      in2 == IF base.changed THEN PutBase(in, p, base.v) ELSE in
      n == IF base.v.k = "a" THEN Len(base.v.a) ELSE 0
      item(i) == NodeValue(node.items[1], id, in2, spath \o <<WildStep>>, binds \o <<[pre |-> p, i |-> i - 1]>>)
  IN IF IsErr(base.v) \/ IsErr(in2) THEN Err
     ELSE IF node.items = <<>> THEN base.v
     ELSE LET vs == TLCEval([i \in 1..n |-> TLCEval(item(i))])
              kept == SelectSeq(vs, LAMBDA v : v.k # "z")
          IN IF \E i \in DOMAIN vs : IsErr(vs[i]) THEN Err
             ELSE IF kept = <<>> THEN Nil ELSE A(kept)

ObjectValue(node, id, in, spath, binds) ==
  LET tv == Transformed(node, id, in, spath, binds)
      base == IF tv.k = "o" THEN tv.o ELSE IF node.def # <<>> THEN node.def[1].o ELSE EmptyFn
      vals == TLCEval([j \in DOMAIN node.props |-> TLCEval(NodeValue(node.props[j], id, in, spath \o <<KeyStep(node.props[j].name)>>, binds))])
      set == TLCEval({j \in DOMAIN vals : vals[j].k # "z"})
      names == {node.props[j].name : j \in set}
      at(f) == vals[CHOOSE j \in set : node.props[j].name = f]
      all == [f \in DOMAIN base \cup names |-> IF f \in names THEN at(f) ELSE base[f]]
  IN IF IsErr(tv) \/ tv.k \notin {"z", "o"} \/ (\E j \in DOMAIN vals : IsErr(vals[j])) THEN Err
     ELSE IF DOMAIN all = {} THEN Nil ELSE O(all)

NodeValue(node, id, in, spath, binds) ==
  CASE node.t = "object" /\ ~node.free -> ObjectValue(node, id, in, spath, binds)
    [] node.t = "array" -> ArrayValue(node, id, in, spath, binds)
    [] OTHER -> ScalarValue(node, id, in, spath, binds)

------------------------------------------------------------------------------
(* Making a transformer fails on instructions for its identifier which it      *)
(* could not carry out, wherever they are in the schema, and on defaults which *)
(* do not fit the instance.                                                    *)
Arity == [changeCase |-> {"to"}, currentTime |-> {"format"}, max |-> {"by", "return"}, replace |-> {"regex", "new"},
          split |-> {"on"}, timeParse |-> {"format", "layout"}, toCamelCase |-> {"delimiter"}]
AnyArgs == {"duration", "inverse", "removeHTML", "convertToFloat64", "convertToInt64", "convertToBool", "valueExists"}
OpAccepted(op) ==
  \/ op.name \in AnyArgs
  \/ /\ op.name \in DOMAIN Arity
     /\ DOMAIN op.args = Arity[op.name]
     /\ op.name = "changeCase" => op.args.to \in {"lower", "upper"}
     /\ op.name = "replace" => "badre" \notin DOMAIN op
TrAccepted(tr) == /\ tr.method \in {"", "first", "last", "concatenate"}
                  /\ \A i \in DOMAIN tr.from : \A j \in DOMAIN tr.from[i].ops : OpAccepted(tr.from[i].ops[j])
RECURSIVE NodeAccepted(_, _)
NodeAccepted(node, id) ==
  /\ \A i \in DOMAIN node.tr : node.tr[i].id = id => TrAccepted(node.tr[i])
  /\ node.def # <<>> /\ node.def[1].k # "z" =>
       CASE node.t = "array" -> node.def[1].k = "a"
         [] node.t = "object" /\ ~node.free -> node.def[1].k = "o"
         [] OTHER -> TRUE
  /\ \A i \in DOMAIN node.props : NodeAccepted(node.props[i], id)
  /\ \A i \in DOMAIN node.items : NodeAccepted(node.items[i], id)
SchemaAccepted(root, id, xml) == NodeAccepted(root, id)

\* TransformNoValidation: the output, Err if the transform fails
JsonTransform(root, id, in) ==
  LET v == NodeValue(root, id, in, <<>>, <<>>) IN
  IF IsErr(v) \/ ~Marshals(v) THEN Err ELSE Erase(v)
=============================================================================
