------------------------------- MODULE SmallGen ------------------------------
(* What the small cases of generated code share.  A case is a set of files,     *)
(* from which code is generated with every combination of arguments.           *)
EXTENDS GraphQLGen, SequencesExt, Json, IOUtils

Word == O([type |-> S("string")])
Date == O([type |-> S("string"), format |-> S("date-time")])
Plus(v, w) == O(w @@ v.o)
Object1(props, req) == O([type |-> S("object"), properties |-> O(props)] @@ IF req = {} THEN EmptyFn ELSE [required |-> A([j \in DOMAIN SetToSeq(req) |-> S(SetToSeq(req)[j])])])
List1(v) == O([type |-> S("array"), items |-> v])
OrNull(v) == Plus(v, [type |-> A(<<v.o["type"], S("null")>>)])
Hydrate(v) == Plus(v, [type |-> S("graphql-hydration")])
Ref(r) == O("$ref" :> S(r))
Says(v, text) == Plus(v, [description |-> S(text)])
Plain == [descTag |-> FALSE, noNested |-> FALSE, pointers |-> FALSE, embed |-> FALSE, structs |-> EmptyFn, fields |-> EmptyFn, gqlTypes |-> EmptyFn,
          importPath |-> "", scalarAny |-> FALSE, interfaceFiles |-> FALSE]
Question(ev, root, args, pkg) == [ev |-> ev, root |-> root, args |-> args, pkg |-> pkg]
Answer(files, q) == IF q.ev = "structs" THEN Structs(files, q.args, q.root, q.pkg) ELSE GraphQL(files, q.args, q.root, q.pkg)
Cases(sets, questions) ==
  /\ TLCSet(1, sets)
  /\ TLCSet(2, questions)
  /\ ndJsonSerialize(IOEnv.CASES, [j \in 1..Len(TLCGet(1)) |-> [files |-> TLCGet(1)[j], asks |-> TLCGet(2)]])
Sets == TLCGet(1)
Questions == TLCGet(2)

\* every question of every set; the sets in chains, for TLC to follow side by side
Chains == 64
VARIABLES setNo, askNo, Value
Asked(m, j) == setNo' = m /\ askNo' = j /\ Value' = TLCEval(Answer(Sets[m], Questions[j]))
Init == setNo \in 1..Chains /\ setNo <= Len(Sets) /\ askNo = 1 /\ Value = TLCEval(Answer(Sets[setNo], Questions[1]))
Next == IF askNo < Len(Questions) THEN Asked(setNo, askNo + 1) ELSE setNo + Chains <= Len(Sets) /\ Asked(setNo + Chains, 1)
Spec == Init /\ [][Next]_<<setNo, askNo, Value>>
files == Sets[setNo]
ask == Questions[askNo]
args == ask.args
Made == Value.k = "ok"
==============================================================================
