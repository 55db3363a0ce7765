------------------------------- MODULE Flight -------------------------------
(* The algorithm of the cache in small steps: one flight per key at a time,    *)
(* found under a mutex; only within it the stored values are looked up, and    *)
(* stored, without that mutex.  A flight is forgotten before its leader        *)
(* returns.  Every behaviour is one of Cache, and every load returns.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Procs, Keys, Loads   \* every process loads so many times

VARIABLES pc,      \* where each process is
          key,     \* the key it loads
          left,    \* how many loads it has to go
          mutex,   \* who holds the mutex of the flights, or none
          flight,  \* the flight of each key, or none
          joined,  \* the flight a process takes part in
          fl,      \* all flights there were: done, and the result
          data,    \* the stored values
          count,   \* builds so far, to tell their results apart
          calls, may, val  \* the state of Cache, kept alongside
algo == <<pc, key, left, mutex, flight, joined, fl, data, count>>
vars == <<algo, calls, may, val>>

C == INSTANCE Cache
None == "none"

Init == /\ pc = [p \in Procs |-> "idle"] /\ key = [p \in Procs |-> None] /\ left = [p \in Procs |-> Loads]
        /\ mutex = None /\ flight = [k \in Keys |-> 0] /\ joined = [p \in Procs |-> 0]
        /\ fl = <<>> /\ data = C!NoFn /\ count = 0
        /\ C!AbsInit

Goto(p, where) == pc' = [pc EXCEPT ![p] = where]
Load(p) == /\ pc[p] = "idle" /\ left[p] > 0
           /\ \E k \in Keys : key' = [key EXCEPT ![p] = k] /\ C!Call(p, k)
           /\ left' = [left EXCEPT ![p] = @ - 1] /\ Goto(p, "lock")
           /\ UNCHANGED <<mutex, flight, joined, fl, data, count>>
Lock(p) == /\ pc[p] = "lock" /\ mutex = None /\ mutex' = p /\ Goto(p, "look")
           /\ UNCHANGED <<key, left, flight, joined, fl, data, count, calls, may, val>>
\* with the mutex: join the flight of the key or begin one, and unlock
Look(p) == /\ pc[p] = "look" /\ mutex' = None
           /\ IF flight[key[p]] # 0
              THEN /\ joined' = [joined EXCEPT ![p] = flight[key[p]]] /\ Goto(p, "wait") /\ UNCHANGED <<flight, fl>>
              ELSE /\ fl' = Append(fl, [done |-> FALSE, ok |-> FALSE, v |-> 0])
                   /\ flight' = [flight EXCEPT ![key[p]] = Len(fl) + 1]
                   /\ joined' = [joined EXCEPT ![p] = Len(fl) + 1] /\ Goto(p, "stored")
           /\ UNCHANGED <<key, left, data, count, calls, may, val>>
Wait(p) == /\ pc[p] = "wait" /\ fl[joined[p]].done /\ Goto(p, "return")
           /\ UNCHANGED <<key, left, mutex, flight, joined, fl, data, count, calls, may, val>>
Stored(p) == /\ pc[p] = "stored"
             /\ IF key[p] \in DOMAIN data
                THEN /\ fl' = [fl EXCEPT ![joined[p]].ok = TRUE, ![joined[p]].v = data[key[p]]] /\ Goto(p, "lock2")
                     /\ UNCHANGED <<calls, may, val>>
                ELSE /\ UNCHANGED fl /\ Goto(p, "build") /\ C!Start(p)
             /\ UNCHANGED <<key, left, mutex, flight, joined, data, count>>
Build(p) == /\ pc[p] = "build" /\ count' = count + 1
            /\ \/ Goto(p, "store") /\ fl' = [fl EXCEPT ![joined[p]].ok = TRUE, ![joined[p]].v = count + 1] /\ C!Built(p, count + 1)
               \/ Goto(p, "lock2") /\ fl' = [fl EXCEPT ![joined[p]].v = count + 1] /\ C!Failed(p, count + 1)
            /\ UNCHANGED <<key, left, mutex, flight, joined, data>>
Store(p) == /\ pc[p] = "store" /\ data' = C!Put(data, key[p], fl[joined[p]].v) /\ Goto(p, "lock2")
            /\ UNCHANGED <<key, left, mutex, flight, joined, fl, count, calls, may, val>>
Lock2(p) == /\ pc[p] = "lock2" /\ mutex = None /\ mutex' = p /\ Goto(p, "land")
            /\ UNCHANGED <<key, left, flight, joined, fl, data, count, calls, may, val>>
Land(p) == /\ pc[p] = "land" /\ fl' = [fl EXCEPT ![joined[p]].done = TRUE]
           /\ flight' = [flight EXCEPT ![key[p]] = 0] /\ mutex' = None /\ Goto(p, "return")
           /\ UNCHANGED <<key, left, joined, data, count, calls, may, val>>
\* what the process returns has to be allowed by Cache: RefinesReturn below
Return(p) == /\ pc[p] = "return" /\ Goto(p, "idle")
             /\ IF fl[joined[p]].ok THEN C!Return(p, fl[joined[p]].v) ELSE C!Fail(p, fl[joined[p]].v)
             /\ UNCHANGED <<key, left, mutex, flight, joined, fl, data, count>>

Step(p) == Load(p) \/ Lock(p) \/ Look(p) \/ Wait(p) \/ Stored(p) \/ Build(p) \/ Store(p) \/ Lock2(p) \/ Land(p) \/ Return(p)
Done == \A p \in Procs : pc[p] = "idle" /\ left[p] = 0
Next == (\E p \in Procs : Step(p)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

\* the steps which Cache restricts are never refused
NeverRefused == \A p \in Procs :
  /\ pc[p] = "return" => IF fl[joined[p]].ok THEN ENABLED C!Return(p, fl[joined[p]].v) ELSE ENABLED C!Fail(p, fl[joined[p]].v)
  /\ (pc[p] = "stored" /\ key[p] \notin DOMAIN data) => ENABLED C!Start(p)
  /\ pc[p] = "build" => ENABLED C!Built(p, count + 1)
\* different keys do not hold each other up: only a build of the same key is waited for
NotHeldUp == \A p \in Procs : pc[p] = "wait" => (fl[joined[p]].done \/ \E q \in Procs : q # p /\ joined[q] = joined[p] /\ key[q] = key[p])
AllReturn == <>Done
=============================================================================
