-------------------------------- MODULE Num --------------------------------
(* Numbers are canonical decimal strings: no exponent, no leading or trailing  *)
(* zeros, "-" only in front of a non-zero number.  That is what a float64 is   *)
(* formatted to, and it frees the specification of TLC's 32 bit integers.      *)
EXTENDS Str, Integers

RECURSIVE StripLeading(_)
StripLeading(s) == IF Len(s) > 0 /\ Ch(s, 1) = "0" THEN StripLeading(Drop(s, 1)) ELSE s
RECURSIVE StripTrailing(_)
StripTrailing(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0" THEN StripTrailing(Take(s, Len(s) - 1)) ELSE s
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)

Canon(neg, int, frac) ==
  LET i == StripLeading(int)
      f == StripTrailing(frac)
      m == (IF i = "" THEN "0" ELSE i) \o (IF f = "" THEN "" ELSE "." \o f)
  IN IF neg /\ m # "0" THEN "-" \o m ELSE m

Neg(n) == HasPrefix(n, "-")
Mag(n) == IF Neg(n) THEN Drop(n, 1) ELSE n
IntPart(n) == SplitNE(Mag(n), ".")[1]
FracPart(n) == LET p == SplitNE(Mag(n), ".") IN IF Len(p) = 2 THEN p[2] ELSE ""
IsZero(n) == n = "0"
Positive(n) == ~Neg(n) /\ n \notin {"0", "NaN"}
Trunc(n) == Canon(Neg(n), IntPart(n), "")
IsIntegral(n) == FracPart(n) = ""

MagLess(a, b) ==
  LET ia == IntPart(a) ib == IntPart(b) IN
  IF Len(ia) # Len(ib) THEN Len(ia) < Len(ib)
  ELSE IF ia # ib THEN StrLess(ia, ib) ELSE StrLess(FracPart(a), FracPart(b))
NumLess(a, b) ==
  IF Neg(a) # Neg(b) THEN Neg(a)
  ELSE IF Neg(a) THEN MagLess(b, a) ELSE MagLess(a, b)
NumLeq(a, b) == a = b \/ NumLess(a, b)

\* the TLA+ integer of an integral number below 2^31
IntOf(n) == IF Neg(n) THEN 0 - NatOf(Mag(n)) ELSE NatOf(n)
NumOf(i) == ToString(i)

\* floor division of an integral number of any size by a small positive integer: <<quotient, remainder>>
RECURSIVE LongDiv(_, _, _, _)
LongDiv(s, d, q, r) == IF s = "" THEN <<q, r>>
                       ELSE LET x == r * 10 + DigitVal[Ch(s, 1)] IN LongDiv(Drop(s, 1), d, q * 10 + x \div d, x % d)
FloorDiv(n, d) == LET r == LongDiv(Mag(n), d, 0, 0) IN
                  IF ~Neg(n) THEN r ELSE IF r[2] = 0 THEN <<0 - r[1], 0>> ELSE <<0 - r[1] - 1, d - r[2]>>

\* int64(f): the platform's result for what does not fit
MinInt64 == "-9223372036854775808"
MaxInt64 == "9223372036854775807"
ToInt64(n) == LET t == Trunc(n) IN IF NumLeq(MinInt64, t) /\ NumLeq(t, MaxInt64) THEN t ELSE MinInt64

\* strconv.Atoi and ParseInt(s, 10, 64): "" if s is not accepted
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN Drop(s, 1) ELSE s
ParseInt(s) ==
  LET u == Unsigned(s) IN
  IF u = "" \/ ~AllIn(u, Digits) THEN ""
  ELSE LET n == Canon(HasPrefix(s, "-"), u, "") IN
       IF ToInt64(n) = n THEN n ELSE ""

\* The shortest decimal of the float64 nearest to n.  Up to 15 digits that is n itself; beyond, it is
\* only worked out for these numbers, others are marked.
Rounded == [x \in {"9007199254740993", "9223372036854775808", "9223372036854775807", "90071992547409931", "1234567890123456789"} |->
              CASE x = "9007199254740993" -> "9007199254740992"
                [] x = "90071992547409931" -> "90071992547409940"
                [] x = "1234567890123456789" -> "1234567890123456800"
                [] OTHER -> "9223372036854776000"]
Significant(n) == StripLeading(StripTrailing(IntPart(n) \o FracPart(n)))
Marked(n) == HasPrefix(n, "~")
F64(n) == IF Mag(n) \notin DOMAIN Rounded THEN (IF Len(Significant(n)) > 15 /\ Mag(n) \notin {Rounded[x] : x \in DOMAIN Rounded} THEN "~" \o n ELSE n) ELSE (IF Neg(n) THEN "-" ELSE "") \o Rounded[Mag(n)]

\* strconv.ParseFloat for decimal notation
\* The result is "" if s is not accepted; infinities and NaN are spelled as Go formats them.
NonFinite == {"+Inf", "-Inf", "NaN"}
ParseFloat(s) ==
  LET u == Unsigned(s)
      low == Lower(u)
      ePos == IndexFrom(low, "e", 1)
      mant == IF ePos = 0 THEN low ELSE Take(low, ePos - 1)
      exps == IF ePos = 0 THEN "0" ELSE Drop(low, ePos)
      parts == SplitNE(mant, ".")
      int == parts[1]
      frac == IF Len(parts) > 1 THEN parts[2] ELSE ""
      eu == Unsigned(exps)
      e == IF HasPrefix(exps, "-") THEN 0 - NatOf(eu) ELSE NatOf(eu)
  IN IF low \in {"inf", "infinity"} THEN (IF HasPrefix(s, "-") THEN "-Inf" ELSE "+Inf")
     ELSE IF low = "nan" /\ u = s THEN "NaN"
     ELSE IF ~(Len(parts) <= 2 /\ Len(int) + Len(frac) > 0 /\ AllIn(int, Digits) /\ AllIn(frac, Digits)
               /\ eu # "" /\ AllIn(eu, Digits) /\ Len(eu) <= 3) THEN ""
     ELSE LET digits == int \o frac
              point == Len(int) + e
              neg == HasPrefix(s, "-")
          IN F64(IF point <= 0 THEN Canon(neg, "", Zeros(0 - point) \o digits)
             ELSE IF point >= Len(digits) THEN Canon(neg, digits \o Zeros(point - Len(digits)), "")
             ELSE Canon(neg, Take(digits, point), Drop(digits, point)))

ParseBoolTrue == {"1", "t", "T", "TRUE", "true", "True"}
ParseBoolFalse == {"0", "f", "F", "FALSE", "false", "False"}
=============================================================================
