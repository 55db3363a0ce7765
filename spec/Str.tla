-------------------------------- MODULE Str --------------------------------
(* Strings as the library sees them.  TLC strings support Len, SubSeq and \o,  *)
(* which is all the operators below are built from.  Outside of ASCII there are *)
(* some letters, for which a rune and a byte differ.                           *)
EXTENDS Naturals, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
Sub(s, i, j) == LET e == IF j > Len(s) THEN Len(s) ELSE j IN IF i > e THEN "" ELSE SubSeq(s, i, e)
Drop(s, n) == Sub(s, n + 1, Len(s))
Take(s, n) == Sub(s, 1, n)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LowerStr == "abcdefghijklmnopqrstuvwxyz"
UpperStr == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
\* printable ASCII in code point order, from space on
AsciiStr == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Lowers == {Ch(LowerStr, i) : i \in 1..26}
Uppers == {Ch(UpperStr, i) : i \in 1..26}
LowerAll == LowerStr \o "éïñöüжя"
UpperAll == UpperStr \o "ÉÏÑÖÜЖЯ"
Cased == 1..Len(LowerAll)
LowerOf == [c \in {Ch(UpperAll, i) : i \in Cased} |-> Ch(LowerAll, CHOOSE i \in Cased : Ch(UpperAll, i) = c)]
UpperOf == [c \in {Ch(LowerAll, i) : i \in Cased} |-> Ch(UpperAll, CHOOSE i \in Cased : Ch(LowerAll, i) = c)]
CodeOf == [c \in {Ch(AsciiStr, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : Ch(AsciiStr, i) = c)]
Code(c) == IF c \in DOMAIN CodeOf THEN CodeOf[c] ELSE IF c = "\t" THEN 9 ELSE IF c = "\n" THEN 10 ELSE IF c = "\r" THEN 13 ELSE 127
DigitVal == [c \in Digits |-> CHOOSE d \in 0..9 : ToString(d) = c]
Letters == Lowers \cup Uppers
Spaces == {" ", "\t", "\n", "\r"}

Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
RECURSIVE CatAll(_)
CatAll(q) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1]
             ELSE LET h == Len(q) \div 2 IN CatAll(SubSeq(q, 1, h)) \o CatAll(SubSeq(q, h + 1, Len(q)))
MapChars(F(_), s) == CatAll([i \in 1..Len(s) |-> F(Ch(s, i))])

LowerCh(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
UpperCh(c) == IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c
Lower(s) == MapChars(LowerCh, s)
Upper(s) == MapChars(UpperCh, s)

AllIn(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
Contains(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

HasPrefix(s, p) == Len(p) <= Len(s) /\ Take(s, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ Drop(s, Len(s) - Len(p)) = p

\* first index >= from at which p occurs in s, 0 if none (p non-empty)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, p, from) ==
  IF from + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, from, from + Len(p) - 1) = p THEN from
  ELSE IndexFrom(s, p, from + 1)

\* strings.Split for a non-empty separator; an empty separator splits into characters
RECURSIVE SplitNE(_, _)
SplitNE(s, sep) ==
  LET i == IndexFrom(s, sep, 1) IN
  IF i = 0 THEN <<s>> ELSE <<Take(s, i - 1)>> \o SplitNE(Drop(s, i + Len(sep) - 1), sep)
SplitOn(s, sep) == IF sep = "" THEN Chars(s) ELSE SplitNE(s, sep)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o q[i] \o JoinFrom(q, sep, i + 1)
JoinStr(q, sep) == JoinFrom(q, sep, 1)

ReplaceAll(s, old, new) == JoinStr(SplitNE(s, old), new)   \* old non-empty

RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # "" /\ Ch(s, 1) \in Spaces THEN TrimLeft(Drop(s, 1)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # "" /\ Ch(s, Len(s)) \in Spaces THEN TrimRight(Take(s, Len(s) - 1)) ELSE s
TrimSpace(s) == TrimRight(TrimLeft(s))

\* byte order
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                 ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLess(Drop(a, 1), Drop(b, 1))
                 ELSE Code(Ch(a, 1)) < Code(Ch(b, 1))

\* the elements of a finite set of strings in byte order
RECURSIVE SortedStrs(_)
SortedStrs(S) == IF S = {} THEN <<>>
                 ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : StrLess(x, y)
                      IN <<m>> \o SortedStrs(S \ {m})

\* strings.Title: upper case letters which begin a word; letters, digits and underscores continue one
TitleSeps(c) == c \in (DOMAIN CodeOf \cup Spaces) \ (Letters \cup Digits \cup {"_"})
TitleCase(s) == CatAll([i \in 1..Len(s) |-> IF i = 1 \/ TitleSeps(Ch(s, i - 1)) THEN UpperCh(Ch(s, i)) ELSE Ch(s, i)])

\* decimal number of at most nine digits
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE NatOf(Take(s, Len(s) - 1)) * 10 + DigitVal[Ch(s, Len(s))]
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
=============================================================================
