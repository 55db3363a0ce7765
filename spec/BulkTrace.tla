------------------------------ MODULE BulkTrace ------------------------------
(* Recorded runs of generated bulk writers checked against Bulk.  An item is   *)
(* handed over at some point after the sender began to send it, and written at *)
(* some point before a write after which it is in the file returns: an event   *)
(* stands for all steps of Bulk up to it that nothing else shows.              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l, st, verdict
vars == <<n, l, st, verdict>>
Trace == Traces[n]
Event == Trace.events[l + 1]
First(k) == SubSeq(Trace.items, 1, k)

Start == [begun |-> 0, sent |-> 0, closed |-> FALSE, written |-> 0, failed |-> FALSE, told |-> 0, ended |-> FALSE]
Can(s, e) ==
  CASE e.ev = "sending" -> e.i = s.begun + 1 /\ s.sent = s.begun
    [] e.ev = "sent" -> e.i = s.begun
    \* what is written are items that were sent, in their order, and nothing follows a failure
    [] e.ev = "write" -> ~s.failed /\ ~s.ended /\ Len(e.got) >= s.written /\ Len(e.got) <= s.begun /\ e.got = First(Len(e.got))
    [] e.ev = "told" -> s.failed /\ s.told = 0 /\ ~s.ended /\ e.same
    \* everything is written, or the failure was told
    [] e.ev = "ended" -> IF s.failed THEN s.told = 1 ELSE s.closed /\ s.written = s.sent /\ s.told = 0
    [] e.ev = "file" -> s.ended /\ (~s.failed => e.whole /\ e.got = First(s.sent))
    \* it is done though nobody read the errors
    [] e.ev = "gone" -> s.failed \/ (s.closed /\ s.written = s.sent)
    [] e.ev = "gaveup" -> s.failed   \* only a failure makes it tell or end early
    [] e.ev = "closing" -> TRUE
    [] OTHER -> FALSE   \* stuck
After(s, e) ==
  CASE e.ev = "sending" -> [s EXCEPT !.begun = e.i]
    [] e.ev = "sent" -> [s EXCEPT !.sent = e.i]
    [] e.ev = "write" -> [s EXCEPT !.written = Len(e.got), !.failed = ~e.ok]
    [] e.ev = "told" -> [s EXCEPT !.told = 1]
    [] e.ev = "ended" -> [s EXCEPT !.ended = TRUE]
    [] e.ev = "closing" -> [s EXCEPT !.closed = TRUE]
    [] OTHER -> s

Init == n \in 1..Len(Traces) /\ l = 0 /\ st = Start /\ verdict = "ok"
Step == /\ verdict = "ok" /\ l < Len(Trace.events)
        /\ (Can(st, Event) = TRUE)
        /\ st' = After(st, Event) /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Reject == /\ verdict = "ok" /\ l < Len(Trace.events)
          /\ ~ENABLED Step
          /\ PrintT(<<"REJECT", n, l + 1, ToJson(st)>>)
          /\ verdict' = "rejected" /\ UNCHANGED <<n, l, st>>
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
