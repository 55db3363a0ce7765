-------------------------------- MODULE Val --------------------------------
(* Values while a transform runs.  Every value is a record tagged with k:      *)
(*   s string, n float64, i int, l int64, b bool, a array, o object, z nil,    *)
(*   t time, x a list of XML nodes, now a current time, err a failed operation *)
(* Arrays and objects hold values; n, i and l hold canonical decimal strings.  *)
EXTENDS Time

S(s) == [k |-> "s", s |-> s]
N(n) == [k |-> "n", n |-> n]
I(n) == [k |-> "i", n |-> n]
L(n) == [k |-> "l", n |-> n]
B(b) == [k |-> "b", b |-> b]
A(a) == [k |-> "a", a |-> a]
O(o) == [k |-> "o", o |-> o]
T(t) == [k |-> "t", t |-> t]
X(nodes) == [k |-> "x", x |-> nodes]
Nil == [k |-> "z"]
Err == [k |-> "err"]
IsErr(v) == v.k = "err"
EmptyFn == [x \in {} |-> Nil]

\* What json.Marshal makes of a value: the numeric types and times lose their identity.
RECURSIVE Erase(_)
Erase(v) ==
  CASE v.k \in {"n", "i", "l"} -> N(v.n)
    [] v.k = "t" -> S(RFC3339(v.t))
    [] v.k = "a" -> A([j \in DOMAIN v.a |-> Erase(v.a[j])])
    [] v.k = "o" -> O([f \in DOMAIN v.o |-> Erase(v.o[f])])
    [] OTHER -> v

\* json.Marshal fails on a number which is not finite, a year beyond 9999 and on XML nodes.
RECURSIVE Marshals(_)
Marshals(v) ==
  CASE v.k \in {"n", "i", "l"} -> v.n \notin NonFinite
    [] v.k = "a" -> \A j \in DOMAIN v.a : Marshals(v.a[j])
    [] v.k = "o" -> \A f \in DOMAIN v.o : Marshals(v.o[f])
    [] v.k = "x" -> FALSE
    [] v.k = "t" -> v.t # NoMoment
    [] OTHER -> TRUE

------------------------------------------------------------------------------
(* Conversion to the type a field declares.  Err: the value has no             *)
(* representation in the type; Nil: the value is empty.                        *)
ToBoolean(v) ==
  CASE v.k = "b" -> v
    [] v.k = "s" -> IF v.s = "" THEN B(FALSE)
                    ELSE IF v.s \in ParseBoolTrue THEN B(TRUE)
                    ELSE IF v.s \in ParseBoolFalse THEN B(FALSE) ELSE Err
    [] v.k \in {"n", "i"} -> B(Positive(v.n))
    [] v.k = "z" -> Nil
    [] OTHER -> Err
ToNumber(v) ==
  CASE v.k = "b" -> I(IF v.b THEN "1" ELSE "0")
    [] v.k = "s" -> IF v.s = "" THEN Nil
                    ELSE IF ParseInt(v.s) # "" THEN I(ParseInt(v.s))
                    ELSE IF ParseFloat(v.s) \notin NonFinite \cup {""} THEN N(ParseFloat(v.s)) ELSE Err
    [] v.k \in {"n", "i"} -> v
    [] OTHER -> Err
ToStr(v) ==
  CASE v.k = "b" -> S(IF v.b THEN "true" ELSE "false")
    [] v.k = "s" -> v
    [] v.k \in {"n", "i"} -> S(v.n)
    [] v.k = "z" -> Nil
    [] OTHER -> Err
ToDateTime(v) ==
  CASE v.k = "s" -> IF v.s = "" THEN Nil
                    ELSE LET t == ParseRFC3339(v.s) IN
                         IF t = NoMoment THEN Err ELSE IF ZeroTime(t) THEN Nil ELSE T(t)
    [] v.k \in {"n", "i"} -> T(UnixMoment(v.n))
    [] OTHER -> Err
ToType(v, type) ==
  CASE type = "boolean" -> ToBoolean(v)
    [] type \in {"number", "integer"} -> ToNumber(v)
    [] type = "string" -> ToStr(v)
    [] type = "date-time" -> ToDateTime(v)
    [] OTHER -> v

\* A path which may match more than once yields a list, so a list stands for its first value
\* unless an array is wanted; an empty list stands for no value.
RECURSIVE Convert(_, _)
Convert(v, type) ==
  IF v.k = "z" THEN Nil
  ELSE IF v.k = "a" /\ Len(v.a) = 0 THEN Nil
  ELSE IF v.k = "a" /\ (Len(v.a) = 1 \/ type # "array")
       THEN LET f == v.a[1] IN
            IF f.k = "a" /\ Len(f.a) > 0 THEN Convert(f.a[1], type) ELSE ToType(f, type)
  ELSE ToType(v, type)
=============================================================================
