-------------------------------- MODULE Time --------------------------------
(* Dates: RFC 3339 text, Unix seconds and the layouts of the timeParse         *)
(* operation.  A moment is a record of its civil fields; zone is "Z" or +-hh:mm. *)
EXTENDS Num

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

MonthNames == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October",
                "November", "December">>
DayNames == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>

Moment == [y |-> 0, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0, frac |-> "", zone |-> "Z"]

\* days since 1970-01-01 of a civil date and back (Howard Hinnant's algorithms)
DaysOf(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      mp == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
CivilOf(days) ==
  LET z == days + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400
  IN <<IF m <= 2 THEN y + 1 ELSE y, m, d>>
Weekday(y, m, d) == (DaysOf(y, m, d) + 4) % 7

NoMoment == [none |-> TRUE]

\* the moment of a number of seconds, NoMoment if it is outside of the years JSON can represent
UnixMoment(n) ==
  LET secs == Trunc(n)
      q == FloorDiv(secs, 86400)
      c == CivilOf(q[1])
      r == q[2]
  IN IF Len(Mag(secs)) > 11 THEN NoMoment ELSE [Moment EXCEPT !.y = c[1], !.mo = c[2], !.d = c[3], !.h = r \div 3600, !.mi = (r % 3600) \div 60, !.s = r % 60]

P2(n) == Pad(ToString(n), 2)
RFC3339(t) == Pad(ToString(t.y), 4) \o "-" \o P2(t.mo) \o "-" \o P2(t.d) \o "T" \o P2(t.h) \o ":" \o P2(t.mi) \o ":" \o P2(t.s)
              \o (IF t.frac = "" THEN "" ELSE "." \o t.frac) \o t.zone

ValidMoment(t) == /\ t.mo \in 1..12 /\ t.d \in 1..31 /\ t.d <= DaysIn(t.y, t.mo)
                  /\ t.h \in 0..23 /\ t.mi \in 0..59 /\ t.s \in 0..59
ZeroTime(t) == t.y = 1 /\ t.mo = 1 /\ t.d = 1 /\ t.h = 0 /\ t.mi = 0 /\ t.s = 0 /\ t.frac = "" /\ t.zone = "Z"

\* time.Parse(time.RFC3339, s); NoMoment if it is not accepted
ParseZone(z) ==
  IF z = "Z" THEN "Z"
  ELSE IF Len(z) = 6 /\ Ch(z, 1) \in {"+", "-"} /\ Ch(z, 4) = ":" /\ AllIn(Sub(z, 2, 3) \o Sub(z, 5, 6), Digits)
          /\ NatOf(Sub(z, 2, 3)) <= 23 /\ NatOf(Sub(z, 5, 6)) <= 59
       THEN IF Drop(z, 1) = "00:00" THEN "Z" ELSE z
  ELSE ""
RECURSIVE DigitRun(_)
DigitRun(s) == IF s # "" /\ Ch(s, 1) \in Digits THEN 1 + DigitRun(Drop(s, 1)) ELSE 0
ParseRFC3339(s) ==
  IF ~(Len(s) >= 20 /\ AllIn(Sub(s, 1, 4) \o Sub(s, 6, 7) \o Sub(s, 9, 10) \o Sub(s, 12, 13) \o Sub(s, 15, 16) \o Sub(s, 18, 19), Digits)
       /\ Ch(s, 5) = "-" /\ Ch(s, 8) = "-" /\ Ch(s, 11) = "T" /\ Ch(s, 14) = ":" /\ Ch(s, 17) = ":")
  THEN NoMoment
  ELSE LET rest == Drop(s, 19)
           n == IF Ch(rest, 1) = "." THEN DigitRun(Drop(rest, 1)) ELSE 0
           zone == ParseZone(IF Ch(rest, 1) = "." THEN Drop(rest, n + 1) ELSE rest)
           t == [y |-> NatOf(Sub(s, 1, 4)), mo |-> NatOf(Sub(s, 6, 7)), d |-> NatOf(Sub(s, 9, 10)), h |-> NatOf(Sub(s, 12, 13)),
                 mi |-> NatOf(Sub(s, 15, 16)), s |-> NatOf(Sub(s, 18, 19)), frac |-> StripTrailing(Take(Drop(rest, 1), n)), zone |-> zone]
       IN IF zone = "" \/ (Ch(rest, 1) = "." /\ n = 0) \/ ~ValidMoment(t) THEN NoMoment ELSE t

(* Layouts are sequences of tokens: [t |-> "lit", s |-> text] or a time element, named below after the *)
(* reference time Mon Jan 2 15:04:05 2006.                                                            *)
PrefixIn(s, names, len) ==   \* index of the name (or its first len characters) the string starts with, 0 if none
  LET short(i) == IF len = 0 THEN names[i] ELSE Take(names[i], len)
      hits == {i \in 1..Len(names) : Len(short(i)) <= Len(s) /\ Lower(Take(s, Len(short(i)))) = Lower(short(i))}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE
NameLen(names, i, len) == IF len = 0 THEN Len(names[i]) ELSE len

\* what is left of s after a literal text of the layout, where a blank stands for any number of them
RECURSIVE CutBlanks(_), Skip(_, _)
CutBlanks(s) == IF HasPrefix(s, " ") THEN CutBlanks(Drop(s, 1)) ELSE s
NotThere == [none |-> TRUE]
Skip(s, lit) ==
  IF lit = "" THEN [left |-> s]
  ELSE IF Ch(lit, 1) = " " THEN IF s # "" /\ Ch(s, 1) # " " THEN NotThere ELSE Skip(CutBlanks(s), CutBlanks(lit))
  ELSE IF s = "" \/ Ch(s, 1) # Ch(lit, 1) THEN NotThere ELSE Skip(Drop(s, 1), Drop(lit, 1))

RECURSIVE ParseTokens(_, _, _, _)
\* t: moment so far, pm: "am", "pm" or ""
ParseTokens(toks, s, t, pm) ==
  IF toks = <<>>
  THEN IF s # "" THEN NoMoment
       ELSE LET h == IF pm = "pm" /\ t.h < 12 THEN t.h + 12 ELSE IF pm = "am" /\ t.h = 12 THEN 0 ELSE t.h
                u == [t EXCEPT !.h = h]
            IN IF ValidMoment(u) THEN u ELSE NoMoment
  ELSE LET k == Head(toks)
           more == Tail(toks)
           two == Len(s) >= 2 /\ AllIn(Take(s, 2), Digits)
           one == Len(s) >= 1 /\ Ch(s, 1) \in Digits
           w == IF two THEN 2 ELSE 1
           v2 == NatOf(Take(s, 2))
           vw == NatOf(Take(s, w))
       IN CASE k.t = "lit" -> LET r == Skip(s, k.s) IN IF r = NotThere THEN NoMoment ELSE ParseTokens(more, r.left, t, pm)
            [] k.t = "2006" -> IF Len(s) >= 4 /\ AllIn(Take(s, 4), Digits)
                               THEN ParseTokens(more, Drop(s, 4), [t EXCEPT !.y = NatOf(Take(s, 4))], pm) ELSE NoMoment
            [] k.t = "06" -> IF two THEN ParseTokens(more, Drop(s, 2), [t EXCEPT !.y = IF v2 >= 69 THEN 1900 + v2 ELSE 2000 + v2], pm) ELSE NoMoment
            [] k.t = "01" -> IF two /\ v2 \in 1..12 THEN ParseTokens(more, Drop(s, 2), [t EXCEPT !.mo = v2], pm) ELSE NoMoment
            [] k.t = "1" -> IF one /\ vw \in 1..12 THEN ParseTokens(more, Drop(s, w), [t EXCEPT !.mo = vw], pm) ELSE NoMoment
            [] k.t = "02" -> IF two THEN ParseTokens(more, Drop(s, 2), [t EXCEPT !.d = v2], pm) ELSE NoMoment
            [] k.t = "2" -> IF one THEN ParseTokens(more, Drop(s, w), [t EXCEPT !.d = vw], pm) ELSE NoMoment
            [] k.t = "15" -> IF one /\ vw <= 23 THEN ParseTokens(more, Drop(s, w), [t EXCEPT !.h = vw], pm) ELSE NoMoment
            [] k.t = "03" -> IF two /\ v2 <= 12 THEN ParseTokens(more, Drop(s, 2), [t EXCEPT !.h = v2], pm) ELSE NoMoment
            [] k.t = "3" -> IF one /\ vw <= 12 THEN ParseTokens(more, Drop(s, w), [t EXCEPT !.h = vw], pm) ELSE NoMoment
            [] k.t = "04" -> IF two /\ v2 <= 59 THEN ParseTokens(more, Drop(s, 2), [t EXCEPT !.mi = v2], pm) ELSE NoMoment
            [] k.t = "05" -> IF ~(two /\ v2 <= 59) THEN NoMoment
                             \* a fraction may follow though the layout has none
                             ELSE LET r == Drop(s, 2)
                                      n == IF Len(r) >= 2 /\ Ch(r, 1) \in {".", ","} THEN DigitRun(Drop(r, 1)) ELSE 0
                                      wanted == more # <<>> /\ Head(more).t = ".000"
                                  IN IF n = 0 \/ wanted THEN ParseTokens(more, r, [t EXCEPT !.s = v2], pm)
                                     ELSE ParseTokens(more, Drop(r, n + 1), [t EXCEPT !.s = v2, !.frac = StripTrailing(Take(Drop(r, 1), n))], pm)
            [] k.t = ".000" -> IF Len(s) >= 4 /\ Ch(s, 1) \in {".", ","} /\ AllIn(Sub(s, 2, 4), Digits)
                               THEN ParseTokens(more, Drop(s, 4), [t EXCEPT !.frac = StripTrailing(Sub(s, 2, 4))], pm) ELSE NoMoment
            [] k.t = "_2" -> LET r == IF HasPrefix(s, " ") THEN Drop(s, 1) ELSE s
                                 n == DigitRun(Take(r, 2))
                             IN IF n = 0 THEN NoMoment ELSE ParseTokens(more, Drop(r, n), [t EXCEPT !.d = NatOf(Take(r, n))], pm)
            [] k.t = "Monday" -> LET i == PrefixIn(s, DayNames, 0) IN
                              IF i = 0 THEN NoMoment ELSE ParseTokens(more, Drop(s, Len(DayNames[i])), t, pm)
            [] k.t = "-07:00" -> IF ParseZone(Take(s, 6)) \in {"", "Z"} /\ Take(s, 6) \notin {"+00:00", "-00:00"} THEN NoMoment
                                 ELSE ParseTokens(more, Drop(s, 6), [t EXCEPT !.zone = ParseZone(Take(s, 6))], pm)
            [] k.t = "-0700" -> LET z == Take(s, 3) \o ":" \o Sub(s, 4, 5) IN
                                IF Len(s) < 5 \/ ParseZone(z) = "" THEN NoMoment
                                ELSE ParseTokens(more, Drop(s, 5), [t EXCEPT !.zone = ParseZone(z)], pm)
            [] k.t = "PM" -> IF HasPrefix(s, "PM") THEN ParseTokens(more, Drop(s, 2), t, "pm")
                             ELSE IF HasPrefix(s, "AM") THEN ParseTokens(more, Drop(s, 2), t, "am") ELSE NoMoment
            [] k.t = "Jan" -> LET i == PrefixIn(s, MonthNames, 3) IN
                              IF i = 0 THEN NoMoment ELSE ParseTokens(more, Drop(s, 3), [t EXCEPT !.mo = i], pm)
            [] k.t = "January" -> LET i == PrefixIn(s, MonthNames, 0) IN
                              IF i = 0 THEN NoMoment ELSE ParseTokens(more, Drop(s, Len(MonthNames[i])), [t EXCEPT !.mo = i], pm)
            [] k.t = "Mon" -> IF PrefixIn(s, DayNames, 3) = 0 THEN NoMoment ELSE ParseTokens(more, Drop(s, 3), t, pm)
            [] k.t = "Z07:00" -> IF HasPrefix(s, "Z") THEN ParseTokens(more, Drop(s, 1), [t EXCEPT !.zone = "Z"], pm)
                                 ELSE IF ParseZone(Take(s, 6)) = "" THEN NoMoment
                                 ELSE ParseTokens(more, Drop(s, 6), [t EXCEPT !.zone = ParseZone(Take(s, 6))], pm)
ParseLayout(toks, s) == ParseTokens(toks, s, Moment, "")

FormatToken(k, t) ==
  LET h12 == IF t.h % 12 = 0 THEN 12 ELSE t.h % 12 IN
  CASE k.t = "lit" -> k.s
    [] k.t = "2006" -> Pad(ToString(t.y), 4)
    [] k.t = "06" -> P2(t.y % 100)
    [] k.t = "01" -> P2(t.mo)
    [] k.t = "1" -> ToString(t.mo)
    [] k.t = "02" -> P2(t.d)
    [] k.t = "2" -> ToString(t.d)
    [] k.t = "15" -> P2(t.h)
    [] k.t = "03" -> P2(h12)
    [] k.t = "3" -> ToString(h12)
    [] k.t = "04" -> P2(t.mi)
    [] k.t = "05" -> P2(t.s)
    [] k.t = "PM" -> IF t.h >= 12 THEN "PM" ELSE "AM"
    [] k.t = "Jan" -> Take(MonthNames[t.mo], 3)
    [] k.t = "January" -> MonthNames[t.mo]
    [] k.t = "Mon" -> Take(DayNames[Weekday(t.y, t.mo, t.d) + 1], 3)
    [] k.t = "Z07:00" -> t.zone
    [] k.t = "-07:00" -> IF t.zone = "Z" THEN "+00:00" ELSE t.zone
    [] k.t = "-0700" -> IF t.zone = "Z" THEN "+0000" ELSE ReplaceAll(t.zone, ":", "")
    [] k.t = ".000" -> "." \o Take(t.frac \o "000", 3)
    [] k.t = "_2" -> (IF t.d < 10 THEN " " ELSE "") \o ToString(t.d)
    [] k.t = "Monday" -> DayNames[Weekday(t.y, t.mo, t.d) + 1]
FormatLayout(toks, t) == CatAll([i \in 1..Len(toks) |-> FormatToken(toks[i], t)])
=============================================================================
