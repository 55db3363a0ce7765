--------------------------------- MODULE Cli ----------------------------------
(* The command line.  The words of a command line are read one after the       *)
(* other: options, each of which may be given again, then the schema and the   *)
(* directory to write to.  The result is what the library is called with, or   *)
(* nothing if the command line makes no sense.                                 *)
EXTENDS Str, Sequences, FiniteSets, TLC

Bools == [interfaceFiles |-> "interfaceFiles", pointers |-> "pointers", avro |-> "avro", msgp |-> "msgp", graphql |-> "graphql",
          scalarAny |-> "scalarAny", nestedStructs |-> "noNested", descriptionAsStructTag |-> "descTag", embedAllOf |-> "embed"]
Strings == [outputPathGraphQL |-> "outGraphQL", importPath |-> "importPath"]
Maps == [rename |-> "structs", renameFields |-> "fields", renameGraphQLType |-> "gqlTypes"]
Usual == [interfaceFiles |-> FALSE, pointers |-> FALSE, avro |-> FALSE, msgp |-> FALSE, graphql |-> FALSE, scalarAny |-> FALSE,
          noNested |-> FALSE, descTag |-> TRUE, embed |-> TRUE, outGraphQL |-> "", importPath |-> "",
          structs |-> {}, fields |-> {}, gqlTypes |-> {}, schema |-> "", out |-> ""]
Truths == {"1", "t", "T", "true", "TRUE", "True"}
Untruths == {"0", "f", "F", "false", "FALSE", "False"}
NoSense == [k |-> "nosense"]
Sense(a) == [k |-> "args", args |-> a]

\* pairs separated by commas, added to a map
RECURSIVE AddPairs(_, _)
AddPairs(m, ps) ==
  IF ps = <<>> THEN Sense(m)
  ELSE LET i == IndexFrom(ps[1], "=", 1)
           key == Take(ps[1], i - 1)
           value == Drop(ps[1], i)
       IN IF i = 0 THEN NoSense ELSE AddPairs({p \in m : p[1] # key} \cup {<<key, value>>}, Tail(ps))

\* an option is one or two words, with one or two dashes
IsOption(w) == Len(w) > 1 /\ Ch(w, 1) = "-"
Text(w) == IF HasPrefix(w, "--") THEN Drop(w, 2) ELSE Drop(w, 1)
NameIn(t) == LET i == IndexFrom(t, "=", 1) IN IF i = 0 THEN t ELSE Take(t, i - 1)
HasValue(t) == IndexFrom(t, "=", 1) # 0
ValueIn(t) == Drop(t, IndexFrom(t, "=", 1))

RECURSIVE Options(_, _)
Options(ws, a) ==
  IF ws = <<>> \/ ~IsOption(ws[1]) THEN [k |-> "args", args |-> a, rest |-> ws]
  ELSE IF ws[1] = "--" THEN [k |-> "args", args |-> a, rest |-> Tail(ws)]
  ELSE LET t == Text(ws[1])
           name == NameIn(t)
           two == ~HasValue(t)
           value == IF two THEN ws[2] ELSE ValueIn(t)
           after == IF two THEN Tail(Tail(ws)) ELSE Tail(ws)
       IN IF t = "" \/ Ch(t, 1) \in {"-", "="} THEN NoSense
          ELSE IF name \in DOMAIN Bools THEN
            LET yes == two \/ value \in Truths
                field == Bools[name]
            IN IF ~two /\ value \notin Truths \cup Untruths THEN NoSense
               ELSE Options(Tail(ws), [a EXCEPT ![field] = IF field = "noNested" THEN ~yes ELSE yes])
          ELSE IF name \notin DOMAIN Strings \cup DOMAIN Maps \/ (two /\ Len(ws) < 2) THEN NoSense
          ELSE IF name \in DOMAIN Strings THEN Options(after, [a EXCEPT ![Strings[name]] = value])
          ELSE LET m == AddPairs(a[Maps[name]], SplitNE(value, ","))
               IN IF m = NoSense THEN NoSense ELSE Options(after, [a EXCEPT ![Maps[name]] = m.args])

Meaning(ws) ==
  LET o == Options(ws, Usual) IN
  IF o = NoSense THEN NoSense
  ELSE IF o.rest = <<>> \/ ((o.args.avro \/ o.args.graphql) /\ o.args.importPath = "") THEN NoSense
  ELSE Sense([o.args EXCEPT !.schema = o.rest[1], !.out = IF Len(o.rest) > 1 THEN o.rest[2] ELSE ""])

\* what the functions without arguments of that kind stand for
Before(schema, dir, msgp, names) == [Usual EXCEPT !.schema = schema, !.out = dir, !.msgp = msgp, !.embed = FALSE, !.structs = names]
===============================================================================
