------------------------------ MODULE AvroTimes ------------------------------
(* Times as Avro has them: milliseconds since 1970, rounded down.  A count of   *)
(* milliseconds is kept as days and the milliseconds of the day.               *)
EXTENDS SchemaWalk, Time

\* a moment in time: civil fields, nanoseconds and the offset of its zone in seconds
Millis(t) ==
  LET s == (t.h * 60 + t.mi) * 60 + t.s - t.offset
      q == s \div 86400
  IN [d |-> DaysOf(t.y, t.mo, t.d) + q, ms |-> (s - q * 86400) * 1000 + t.ns \div 1000000]
Epoch == [d |-> 0, ms |-> 0]
IsNil(t) == t = "nil"
AvroTime(e) ==
  CASE e.fn = "time" -> Millis(e.in)
    [] e.fn = "optional" -> IF "none" \in DOMAIN e.in THEN Epoch ELSE Millis(e.in)
    [] e.fn = "slice" -> [j \in DOMAIN e.in |-> Millis(e.in[j])]
    [] e.fn = "optionals" -> LET there == SelectSeq(e.in, LAMBDA t : "none" \notin DOMAIN t)
                             IN [j \in DOMAIN there |-> Millis(there[j])]
\* no times at all: only where there may be none
NoTimes(e) == e.fn = "optionals" /\ \A j \in DOMAIN e.in : "none" \in DOMAIN e.in[j]
AvroTimes(e) == [v |-> AvroTime(e), missing |-> NoTimes(e), kept |-> TRUE]
==============================================================================
