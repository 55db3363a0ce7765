-------------------------------- MODULE Small --------------------------------
(* What the small cases share: schema nodes, and transforms of inputs.          *)
EXTENDS XmlXform, SequencesExt, Json, IOUtils

Node(name, t) == [t |-> t, name |-> name, free |-> FALSE, nullable |-> FALSE, props |-> <<>>, items |-> <<>>, tr |-> <<>>, def |-> <<>>,
                  req |-> <<>>, kw |-> EmptyFn]
Object(name, props) == [Node(name, "object") EXCEPT !.props = props]
Array(name, item) == [Node(name, "array") EXCEPT !.items = <<item>>]
Root(props) == Object("", props)
From(path, ops) == [rel |-> FALSE, path |-> path, ops |-> ops]
Rel(path, ops) == [rel |-> TRUE, path |-> path, ops |-> ops]
By(method, froms) == [id |-> "t", method |-> method, delim |-> "-", from |-> froms]
With(node, tr) == [node EXCEPT !.tr = tr]
Else(node, def) == [node EXCEPT !.def = def]

\* an object without what is missing
Input(fields) == O([f \in {g \in DOMAIN fields : fields[g] # None} |-> fields[f]])
Output(root, input) == IF input.k = "doc" THEN XmlTransform(root, "t", input) ELSE JsonTransform(root, "t", input)
\* a member of a result, Nil if it is not there
Member(v, f) == IF v.k = "o" /\ f \in DOMAIN v.o THEN v.o[f] ELSE Nil
Without(input, f) == O([g \in DOMAIN input.o \ {f} |-> input.o[g]])
RECURSIVE NoNulls(_)
NoNulls(v) == IF v.k = "o" THEN O([f \in {g \in DOMAIN v.o : v.o[g].k # "z"} |-> NoNulls(v.o[f])]) ELSE v
\* the cases, for the driver and, kept where TLC does not make them again for every state, for the model
Cases(schemas, inputs) ==
  /\ TLCSet(1, schemas)
  /\ TLCSet(2, inputs)
  /\ ndJsonSerialize(IOEnv.CASES, [j \in 1..Len(TLCGet(1)) |-> [root |-> TLCGet(1)[j], ins |-> TLCGet(2)]])
TheSchemas == TLCGet(1)
TheInputs == TLCGet(2)

\* every schema with every input; the schemas in chains, for TLC to follow side by side
Chains == 64
VARIABLES schemaNo, inputNo, Value
Gives(m, j) == schemaNo' = m /\ inputNo' = j /\ Value' = TLCEval(Output(TheSchemas[m], TheInputs[j]))
Init == schemaNo \in 1..Chains /\ schemaNo <= Len(TheSchemas) /\ inputNo = 1 /\ Value = TLCEval(Output(TheSchemas[schemaNo], TheInputs[1]))
Next == IF inputNo < Len(TheInputs) THEN Gives(schemaNo, inputNo + 1) ELSE schemaNo + Chains <= Len(TheSchemas) /\ Gives(schemaNo + Chains, 1)
Spec == Init /\ [][Next]_<<schemaNo, inputNo, Value>>
s == TheSchemas[schemaNo]
in == TheInputs[inputNo]
node == s.props[1]
==============================================================================
