-------------------------------- MODULE Cache --------------------------------
(* A cache which builds what it does not have.  Any number of loads are in     *)
(* progress.  At most one build of a key runs at any time and none after one   *)
(* has succeeded, whose value all loads of the key return from then on.  A     *)
(* failed build is reported to those waiting for it and is not remembered.     *)
EXTENDS Naturals, Sequences, TLC

VARIABLES calls,  \* the loads in progress: their key and what became of a build they do
          may,    \* for each of them the failures it may report
          val     \* the values which have been built
absVars == <<calls, may, val>>

Put(fn, x, y) == [z \in DOMAIN fn \cup {x} |-> IF z = x THEN y ELSE fn[z]]
Without(fn, x) == [z \in DOMAIN fn \ {x} |-> fn[z]]
NoFn == [x \in {} |-> 0]

AbsInit == calls = NoFn /\ may = NoFn /\ val = NoFn
OfKey(k) == {q \in DOMAIN calls : calls[q].key = k}

\* a load begins; it may join a build whose failure has not been returned yet
Call(q, k) == /\ q \notin DOMAIN calls
              /\ calls' = Put(calls, q, [key |-> k, st |-> "waiting", err |-> ""])
              /\ may' = Put(may, q, {calls[p].err : p \in {p \in OfKey(k) : calls[p].st = "failed"}})
              /\ UNCHANGED val
\* it begins to build the value
Start(q) == /\ q \in DOMAIN calls /\ calls[q].st = "waiting"
            /\ calls[q].key \notin DOMAIN val
            /\ \A p \in OfKey(calls[q].key) : calls[p].st # "building"
            /\ calls' = [calls EXCEPT ![q].st = "building"]
            /\ UNCHANGED <<may, val>>
Built(q, v) == /\ q \in DOMAIN calls /\ calls[q].st = "building"
               /\ calls' = [calls EXCEPT ![q].st = "built"]
               /\ val' = Put(val, calls[q].key, v)
               /\ UNCHANGED may
Failed(q, e) == /\ q \in DOMAIN calls /\ calls[q].st = "building"
                /\ calls' = [calls EXCEPT ![q].st = "failed", ![q].err = e]
                /\ may' = [p \in DOMAIN may |-> IF p \in OfKey(calls[q].key) THEN may[p] \cup {e} ELSE may[p]]
                /\ UNCHANGED val
\* it returns the value, or a failure
Return(q, v) == /\ q \in DOMAIN calls /\ calls[q].st \in {"waiting", "built"}
                /\ calls[q].key \in DOMAIN val /\ val[calls[q].key] = v
                /\ calls' = Without(calls, q) /\ may' = Without(may, q)
                /\ UNCHANGED val
Fail(q, e) == /\ q \in DOMAIN calls /\ calls[q].st \in {"waiting", "failed"}
              /\ e \in may[q]
              /\ calls' = Without(calls, q) /\ may' = Without(may, q)
              /\ UNCHANGED val
=============================================================================
