------------------------------ MODULE SmallTimes -----------------------------
(* Avro times of all moments at the borders of days, months, years, leap years, *)
(* seconds and milliseconds, in several zones, and of all small lists of them.  *)
EXTENDS AvroTimes, SequencesExt, Json, IOUtils

Years == {-1, 0, 1, 4, 100, 400, 1582, 1677, 1678, 1899, 1900, 1901, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2024, 2038, 2100, 2262, 2263, 9999, 10000}
Dates(y) == {<<1, 1>>, <<2, 28>>, <<3, 1>>, <<4, 30>>, <<12, 31>>} \cup IF Leap(IF y < 0 THEN y + 400 ELSE y) THEN {<<2, 29>>} ELSE {}
Clocks == {<<0, 0, 0>>, <<0, 0, 1>>, <<11, 30, 29>>, <<23, 59, 59>>}
Nanos == {0, 1, 999999, 1000000, 500500500, 998999999, 999000000, 999999999}
Zones == {0, 1, 3600, 19800, 50400, -43200, -1}
At(y, md, c, ns, z) == [y |-> y, mo |-> md[1], d |-> md[2], h |-> c[1], mi |-> c[2], s |-> c[3], ns |-> ns, offset |-> z]
Moments == UNION {{At(y, md, c, ns, 0) : md \in Dates(y), c \in Clocks, ns \in Nanos} : y \in Years}
           \cup UNION {{At(y, md, c, ns, z) : md \in {<<1, 1>>, <<3, 1>>, <<12, 31>>}, c \in {<<0, 0, 0>>, <<23, 59, 59>>}, ns \in {0, 999999, 999999999}, z \in Zones} : y \in Years}
Absent == [none |-> TRUE]
Few == {At(1970, <<1, 1>>, <<0, 0, 0>>, 0, 0), At(1, <<1, 1>>, <<0, 0, 0>>, 0, 0), At(1969, <<12, 31>>, <<23, 59, 59>>, 999999999, 0), At(2024, <<2, 29>>, <<12, 0, 0>>, 1000000, 3600), At(2263, <<1, 1>>, <<0, 0, 0>>, 0, -3600)}
Lists(set, n) == UNION {[1..k -> set] : k \in 0..n}
Asked(fn, in) == [ev |-> "times", fn |-> fn, in |-> in]
Asks == SetToSeq({Asked("time", t) : t \in Moments}) \o SetToSeq({Asked("optional", t) : t \in Moments \cup {Absent}})
        \o SetToSeq({Asked("slice", l) : l \in Lists(Few, 3)}) \o SetToSeq({Asked("optionals", l) : l \in Lists(Few \cup {Absent}, 4)})
ASSUME TLCSet(1, Asks)
All == TLCGet(1)
Chains == 64
PerCase == 100
ASSUME ndJsonSerialize(IOEnv.CASES, [c \in 1..((Len(All) + PerCase - 1) \div PerCase) |->
         [asks |-> SubSeq(All, (c - 1) * PerCase + 1, IF c * PerCase < Len(All) THEN c * PerCase ELSE Len(All))]])

VARIABLES askNo, Value
Init == askNo \in 1..Chains /\ Value = TLCEval(AvroTimes(All[askNo]))
Next == askNo + Chains <= Len(All) /\ askNo' = askNo + Chains /\ Value' = TLCEval(AvroTimes(All[askNo + Chains]))
Spec == Init /\ [][Next]_<<askNo, Value>>

ask == All[askNo]
in == ask.in
one == ask.fn \in {"time", "optional"} /\ in # Absent
Of(t) == AvroTime(Asked("time", t))
Later(v, w) == v.d > w.d \/ (v.d = w.d /\ v.ms >= w.ms)
Carry(v, ms) == LET q == (v.ms + ms) \div 86400000 IN [d |-> v.d + q, ms |-> v.ms + ms - q * 86400000]

\* a count of milliseconds is one of a day
InADay == one => Value.v.ms \in 0..86399999
\* in UTC the count gives the moment back, but for less than a millisecond
Back == (one /\ in.offset = 0) =>
          /\ CivilOf(Value.v.d) = <<in.y, in.mo, in.d>>
          /\ Value.v.ms = ((in.h * 60 + in.mi) * 60 + in.s) * 1000 + in.ns \div 1000000
\* the zone moves it by the offset, and never changes the part of a second
Moved == one => Carry(Value.v, in.offset * 1000) = Of([in EXCEPT !.offset = 0])
\* never later than the moment: the last nanosecond of a millisecond does not count
Down == one => Value.v = Of([in EXCEPT !.ns = (@ \div 1000000) * 1000000])
\* the order of moments is kept
Order == (one /\ in.ns < 999999999) => Later(Of([in EXCEPT !.ns = 999999999]), Value.v)
Passing == (one /\ in.s < 59) => Of([in EXCEPT !.s = @ + 1]) = Carry(Value.v, 1000)
Days == (one /\ in.d < 28) => Of([in EXCEPT !.d = @ + 1]) = [Value.v EXCEPT !.d = @ + 1]
\* 400 years are 146097 days
Cycle == one => Of([in EXCEPT !.y = @ + 400]) = [Value.v EXCEPT !.d = @ + 146097]
\* the epoch is nought, and so is what is not there
Nought == (ask.fn = "optional" /\ in = Absent) => Value.v = Of(At(1970, <<1, 1>>, <<0, 0, 0>>, 0, 0))
\* an optional time which is there is as any other
There == (ask.fn = "optional" /\ in # Absent) => Value.v = Of(in)
\* lists: all that is there, in order; none at all only of what may be missing
Whole == ask.fn = "slice" => Len(Value.v) = Len(in) /\ \A j \in DOMAIN in : Value.v[j] = Of(in[j])
Present == ask.fn = "optionals" =>
             /\ Len(Value.v) = Cardinality({j \in DOMAIN in : in[j] # Absent})
             /\ \A j \in DOMAIN in : in[j] # Absent => Value.v[Cardinality({m \in 1..j : in[m] # Absent})] = Of(in[j])
             /\ Value.missing = (Len(Value.v) = 0)
==============================================================================
