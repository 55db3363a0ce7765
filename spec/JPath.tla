------------------------------- MODULE JPath -------------------------------
(* JSON paths as sequences of steps:                                           *)
(*   [t |-> "key", key]  [t |-> "idx", i]  [t |-> "wild"]  [t |-> "keys", keys] *)
(*   [t |-> "idxs", is]  [t |-> "range", from, to]  [t |-> "rec", key]          *)
(*   [t |-> "filter", key, v]                                                   *)
(* (indexes count from 0 as in the path).  A path of keys and indexes selects   *)
(* one value or fails; any other step turns the result into a list of matches.  *)
EXTENDS Val

None == [k |-> "none"]

SingleStep(st) == st.t \in {"key", "idx"}
SinglePath(p) == \A j \in DOMAIN p : SingleStep(p[j])

Select1(st, v) ==
  CASE st.t = "key" /\ v.k = "o" -> IF st.key \in DOMAIN v.o THEN v.o[st.key] ELSE None
    [] st.t = "idx" /\ v.k = "a" -> IF st.i < Len(v.a) THEN v.a[st.i + 1] ELSE None
    [] st.t = "idx" /\ v.k = "o" -> IF ToString(st.i) \in DOMAIN v.o THEN v.o[ToString(st.i)] ELSE None
    [] OTHER -> None

ChildrenOf(v) ==
  CASE v.k = "a" -> v.a
    [] v.k = "o" -> LET ks == SortedStrs(DOMAIN v.o) IN [j \in DOMAIN ks |-> v.o[ks[j]]]
    [] OTHER -> <<>>

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Some(v) == IF v = None THEN <<>> ELSE <<v>>

RECURSIVE RecMatches(_, _)
RecMatches(key, v) ==
  Some(Select1([t |-> "key", key |-> key], v))
    \o LET cs == ChildrenOf(v) IN Flat([j \in DOMAIN cs |-> RecMatches(key, cs[j])])

Matches(st, v) ==
  CASE st.t \in {"key", "idx"} -> Some(Select1(st, v))
    [] st.t = "wild" -> ChildrenOf(v)
    [] st.t = "keys" -> Flat([j \in DOMAIN st.keys |-> Some(Select1([t |-> "key", key |-> st.keys[j]], v))])
    [] st.t = "idxs" -> Flat([j \in DOMAIN st.is |-> Some(Select1([t |-> "idx", i |-> st.is[j]], v))])
    [] st.t = "range" -> IF v.k # "a" THEN <<>>
                         ELSE SubSeq(v.a, st.from + 1, IF st.to < Len(v.a) THEN st.to ELSE Len(v.a))
    [] st.t = "rec" -> RecMatches(st.key, v)
    [] st.t = "filter" -> SelectSeq(ChildrenOf(v), LAMBDA c : c.k = "o" /\ st.key \in DOMAIN c.o /\ c.o[st.key] = st.v)

RECURSIVE EvalSingle(_, _)
EvalSingle(p, v) == IF p = <<>> \/ v = None THEN v ELSE EvalSingle(Tail(p), Select1(Head(p), v))
RECURSIVE EvalMulti(_, _)
EvalMulti(p, vs) == IF p = <<>> THEN vs
                    ELSE EvalMulti(Tail(p), Flat([j \in DOMAIN vs |-> Matches(Head(p), vs[j])]))

\* the value at a path, None if there is none
Eval(p, v) == IF SinglePath(p) THEN EvalSingle(p, v) ELSE A(EvalMulti(p, <<v>>))
=============================================================================
