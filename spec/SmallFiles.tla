------------------------------ MODULE SmallFiles -----------------------------
(* What the small cases of schema files share.  A case is a set of files, of    *)
(* which every question is asked.                                              *)
EXTENDS SchemaValid, SchemaWalk, SequencesExt, Json, IOUtils

Text == O([type |-> S("string")])
Num1 == O([type |-> S("number")])
Ref(r) == O("$ref" :> S(r))
Plus(v, w) == O(v.o @@ w)
Obj(props) == O([type |-> S("object"), properties |-> O(props)])
Arr(v) == O([type |-> S("array"), items |-> v])
Question(ev, file, one, flatten) == [ev |-> ev, file |-> file, one |-> one, flatten |-> flatten]
Loads(file, one, flatten) == Question("load", file, one, flatten)
Types1(file) == Question("types", file, "", TRUE)
Walks(file, flatten, raw, fail) == Question("walk", file, "", flatten) @@ [raw |-> raw, fail |-> fail]
Judges(file, doc) == Question("valid", file, "", TRUE) @@ [in |-> doc]
Ctx(files, q) == [files |-> files, one |-> q.one, flatten |-> q.flatten]
Answer(files, q) ==
  CASE q.ev = "load" -> Load(Ctx(files, q), q.file)
    [] q.ev = "walk" -> {m.path : m \in Nodes(Load(Ctx(files, q), q.file), q.raw)}
    [] q.ev = "valid" -> ValidFor(Ctx(files, q), q.file, q.in)
    [] OTHER -> Nil
\* which files may have to be loaded by a process of their own: those the specification says are no schemas
Fails(files, questions) == \E j \in DOMAIN questions : questions[j].ev = "load" /\ IsErr(Answer(files, questions[j]))
Cases(sets, questions) ==
  /\ TLCSet(1, sets)
  /\ TLCSet(2, questions)
  /\ ndJsonSerialize(IOEnv.CASES, [j \in 1..Len(TLCGet(1)) |-> [files |-> TLCGet(1)[j], asks |-> TLCGet(2), alone |-> TLCEval(Fails(TLCGet(1)[j], TLCGet(2)))]])
Sets == TLCGet(1)
Questions == TLCGet(2)

\* every question of every set; the sets in chains, for TLC to follow side by side
Chains == 64
VARIABLES setNo, askNo, Value
Asked(m, j) == setNo' = m /\ askNo' = j /\ Value' = TLCEval(Answer(Sets[m], Questions[j]))
Init == setNo \in 1..Chains /\ setNo <= Len(Sets) /\ askNo = 1 /\ Value = TLCEval(Answer(Sets[setNo], Questions[1]))
Next == IF askNo < Len(Questions) THEN Asked(setNo, askNo + 1) ELSE setNo + Chains <= Len(Sets) /\ Asked(setNo + Chains, 1)
Spec == Init /\ [][Next]_<<setNo, askNo, Value>>
files == Sets[setNo]
ask == Questions[askNo]
==============================================================================
