-------------------------------- MODULE Ops --------------------------------
(* The operations of a transform instruction.  Op(op, v) is the value the      *)
(* operation makes of v, Err if it does not support v.                         *)
EXTENDS JPath

------------------------------------------------------------------------------
(* Regular expressions of the replace operation: a sequence of items           *)
(* [set, q, g] - one character of set, quantified by q \in {"1","?","*","+"};  *)
(* g marks the items which make up the single capture group.                   *)
RECURSIVE RunLen(_, _, _, _)
RunLen(set, s, pos, max) == IF max > 0 /\ pos <= Len(s) /\ Contains(set, Ch(s, pos)) THEN 1 + RunLen(set, s, pos + 1, max - 1) ELSE 0
NoMatch == [ok |-> FALSE]
RECURSIVE MatchAt(_, _, _, _)
RECURSIVE TryCount(_, _, _, _, _)
\* m: [ok, end, g0, g1] with end the next position to match, g0 and g1 the group's bounds
MatchAt(items, j, s, m) ==
  IF j > Len(items) THEN m
  ELSE LET it == items[j]
           max == RunLen(it.set, s, m.end, IF it.q \in {"1", "?"} THEN 1 ELSE Len(s))
       IN TryCount(items, j, s, m, max)
TryCount(items, j, s, m, n) ==
  LET it == items[j]
      min == IF it.q \in {"1", "+"} THEN 1 ELSE 0
      m1 == [m EXCEPT !.end = m.end + n,
                      !.g0 = IF it.g /\ (j = 1 \/ ~items[j - 1].g) THEN m.end ELSE m.g0,
                      !.g1 = IF it.g THEN m.end + n ELSE m.g1]
  IN IF n < min THEN NoMatch
     ELSE LET r == MatchAt(items, j + 1, s, m1) IN
          IF r.ok THEN r ELSE IF n = 0 THEN NoMatch ELSE TryCount(items, j, s, m, n - 1)
Expand(new, s, m) == CatAll([i \in DOMAIN new |-> IF new[i].t = "lit" THEN new[i].s
                                                  ELSE IF new[i].g = 0 THEN Sub(s, m.start, m.end - 1)
                                                  ELSE IF new[i].g = 1 THEN Sub(s, m.g0, m.g1 - 1) ELSE ""])
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(op, s, pos, out) ==
  IF pos > Len(s) THEN out
  ELSE IF op.start /\ pos > 1 THEN out \o Drop(s, pos - 1)
  ELSE LET m == MatchAt(op.items, 1, s, [ok |-> TRUE, start |-> pos, end |-> pos, g0 |-> 1, g1 |-> 1]) IN
       IF m.ok /\ m.end > pos THEN ReplaceFrom(op, s, m.end, out \o Expand(op.new, s, m))
       ELSE ReplaceFrom(op, s, pos + 1, out \o Ch(s, pos))

------------------------------------------------------------------------------
(* removeHTML: tags become a space, comments, scripts and styles vanish, what  *)
(* is left is trimmed, double spaces are halved and entities are decoded.      *)
TagStart(s, i) == Ch(s, i) = "<" /\ i < Len(s)
                  /\ (Ch(s, i + 1) \in Letters \/ (Ch(s, i + 1) = "/" /\ i + 1 < Len(s) /\ Ch(s, i + 2) \in Letters))
Entities == <<<<"&amp;", "&">>, <<"&lt;", "<">>, <<"&gt;", ">">>, <<"&AMP;", "&">>, <<"&LT;", "<">>, <<"&GT;", ">">>, <<"&quot;", "\"">>, <<"&QUOT;", "\"">>, <<"&#39;", "'">>, <<"&#34;", "\"">>>>
RECURSIVE Unescape(_)
Unescape(s) ==
  LET i == IndexFrom(s, "&", 1) IN
  IF i = 0 THEN s
  ELSE LET rest == Drop(s, i - 1)
           hits == {e \in 1..Len(Entities) : HasPrefix(rest, Entities[e][1])}
       IN IF hits = {} THEN Take(s, i) \o Unescape(Drop(s, i))
          ELSE LET e == Entities[CHOOSE h \in hits : TRUE] IN Take(s, i - 1) \o e[2] \o Unescape(Drop(rest, Len(e[1])))
RECURSIVE StripTags(_)
StripTags(s) ==
  LET i == IndexFrom(s, "<", 1) IN
  IF i = 0 THEN s
  ELSE LET rest == Drop(s, i - 1)
           low == Lower(rest)
           close == IndexFrom(rest, ">", 1)
           after(e) == Drop(rest, IndexFrom(low, e, 1) + Len(e) - 1)
           before == Take(s, i - 1)
       IN IF HasPrefix(rest, "<!--") THEN before \o StripTags(after("-->"))
          ELSE IF HasPrefix(low, "<script>") THEN before \o StripTags(after("</script>"))
          ELSE IF HasPrefix(low, "<style>") THEN before \o StripTags(after("</style>"))
          ELSE IF TagStart(s, i) THEN before \o (IF close = 0 THEN "" ELSE " " \o StripTags(Drop(rest, close)))
          ELSE IF HasPrefix(rest, "</") /\ Len(rest) > 2 \* no tag, but taken for a comment
          THEN before \o (IF close = 0 THEN "" ELSE StripTags(Drop(rest, close)))
          ELSE before \o "<" \o StripTags(Drop(rest, 1))
RemoveHTML(s) == Unescape(ReplaceAll(TrimSpace(StripTags(s)), "  ", " "))

------------------------------------------------------------------------------
\* HH:MM:SS or MM:SS, any part may be empty
Duration(s) ==
  LET p == SplitNE(s, ":")
      v(i) == NatOf(p[i])
  IN IF Len(p) \notin {2, 3} \/ (\E i \in DOMAIN p : ~AllIn(p[i], Digits)) THEN Err
     ELSE IF Len(p) = 2 THEN I(ToString(v(1) * 60 + v(2)))
     ELSE I(ToString((v(1) * 60 + v(2)) * 60 + v(3)))

CamelCase(s, delim) ==
  LET p == SplitOn(s, delim)
  IN JoinStr([i \in DOMAIN p |-> IF i = 1 THEN Lower(p[i]) ELSE TitleCase(p[i])], "")

RECURSIVE Largest(_, _, _)
Largest(bys, i, best) == IF i > Len(bys) THEN best
                         ELSE Largest(bys, i + 1, IF best = 0 \/ NumLess(bys[best].n, bys[i].n) THEN i ELSE best)
MaxOf(op, a) ==
  LET bys == [j \in DOMAIN a |-> Eval(op.by, a[j])] IN
  IF Len(a) = 0 \/ (\E j \in DOMAIN bys : bys[j].k \notin {"n", "i"}) THEN Err
  ELSE LET r == Eval(op.ret, a[Largest(bys, 1, 0)]) IN IF r = None THEN Err ELSE r

Op(op, v) ==
  CASE op.name = "changeCase" -> IF v.k # "s" THEN Err ELSE S(IF op.to = "lower" THEN Lower(v.s) ELSE Upper(v.s))
    [] op.name = "currentTime" -> [k |-> "now", f |-> op.format]
    [] op.name = "duration" -> LET u == IF v.k = "a" /\ Len(v.a) = 1 THEN v.a[1] ELSE v IN
                               IF u.k = "z" THEN I("0") ELSE IF u.k = "s" THEN Duration(u.s) ELSE Err
    [] op.name = "inverse" -> IF v.k = "b" THEN B(~v.b) ELSE Err
    [] op.name = "max" -> IF v.k = "a" THEN MaxOf(op, v.a) ELSE Err
    [] op.name = "replace" -> IF v.k = "s" THEN S(ReplaceFrom(op, v.s, 1, "")) ELSE Err
    [] op.name = "split" -> IF v.k # "s" THEN Err
                            ELSE IF v.s = "" THEN A(<<>>)
                            ELSE LET p == SplitOn(v.s, op.on) IN A([j \in DOMAIN p |-> S(p[j])])
    [] op.name = "timeParse" -> IF v.k # "s" THEN Err
                                ELSE LET t == ParseLayout(op.format, v.s) IN
                                     IF t = NoMoment THEN Err ELSE S(FormatLayout(op.layout, t))
    [] op.name = "toCamelCase" -> IF v.k = "s" THEN S(CamelCase(v.s, op.delimiter)) ELSE Err
    [] op.name = "removeHTML" -> IF v.k = "s" THEN S(RemoveHTML(v.s)) ELSE Err
    [] op.name = "convertToFloat64" -> CASE v.k = "s" -> IF ParseFloat(v.s) = "" THEN Err ELSE N(ParseFloat(v.s))
                                         [] v.k \in {"n", "i"} -> N(F64(v.n))
                                         [] OTHER -> Err
    [] op.name = "convertToInt64" -> CASE v.k = "s" -> IF ParseInt(v.s) = "" THEN Err ELSE L(ParseInt(v.s))
                                       [] v.k \in {"n", "i", "l"} -> L(ToInt64(v.n))
                                       [] OTHER -> Err
    [] op.name = "convertToBool" -> CASE v.k = "b" -> v
                                      [] v.k = "s" -> IF v.s \in ParseBoolTrue THEN B(TRUE)
                                                      ELSE IF v.s \in ParseBoolFalse THEN B(FALSE) ELSE Err
                                      [] v.k = "a" -> B(Len(v.a) # 0)
                                      [] v.k \in {"n", "i", "l"} -> B(~IsZero(v.n))
                                      [] OTHER -> Err
    [] op.name = "valueExists" -> CASE v.k = "s" -> B(v.s # "")
                                    [] v.k = "x" -> B(Len(v.x) > 0)
                                    [] OTHER -> Err

\* operations apply in order, the first failure ends the chain
RECURSIVE OpChain(_, _)
OpChain(ops, v) == IF ops = <<>> \/ IsErr(v) THEN v ELSE OpChain(Tail(ops), Op(Head(ops), v))
=============================================================================
