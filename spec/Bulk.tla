-------------------------------- MODULE Bulk ---------------------------------
(* A bulk writer: a sender hands it items, it writes them to a file that may   *)
(* fail at any point, and a reader may or may not read the channel of errors.  *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Items,     \* how many there are
          Heeds      \* whether the sender looks at the errors while it waits to send
VARIABLES sent,      \* the number of items handed over
          closed,    \* the channel of items
          pc,        \* of the writer
          has,       \* it has an item which is not written
          written,   \* what is in the file, in order
          failed,    \* the file
          errors,    \* what is in the channel of errors
          ended,     \* it is closed
          told,      \* the errors that were read
          sender     \* of what the sender does
vars == <<sent, closed, pc, has, written, failed, errors, ended, told, sender>>

Init == /\ sent = 0 /\ closed = FALSE /\ pc = "begin" /\ has = 0 /\ written = <<>> /\ failed = FALSE
        /\ errors = <<>> /\ ended = FALSE /\ told = <<>> /\ sender = "sending"

\* the sender
Send == /\ sender = "sending" /\ sent < Items /\ pc = "loop" /\ has = 0 /\ ~closed
        /\ sent' = sent + 1 /\ has' = sent + 1 /\ pc' = "write"
        /\ UNCHANGED <<closed, written, failed, errors, ended, told, sender>>
Close == /\ sender = "sending" /\ sent = Items /\ closed' = TRUE /\ sender' = "done"
         /\ UNCHANGED <<sent, pc, has, written, failed, errors, ended, told>>
\* it gets an error instead of sending, and gives up, closing the channel or not
GiveUp == /\ Heeds /\ sender = "sending" /\ (errors # <<>> \/ ended)
          /\ told' = told \o errors /\ errors' = <<>> /\ sender' = "done" /\ closed' \in BOOLEAN
          /\ UNCHANGED <<sent, pc, has, written, failed, ended>>
\* someone reads the errors
Read == /\ errors # <<>> /\ told' = Append(told, Head(errors)) /\ errors' = Tail(errors)
        /\ UNCHANGED <<sent, closed, pc, has, written, failed, ended, sender>>

\* the writer
Fails(next) == \/ failed' = FALSE /\ pc' = next
               \/ failed' = TRUE /\ pc' = "report"
Begin == /\ pc = "begin" /\ Fails("loop") /\ UNCHANGED <<sent, closed, has, written, errors, ended, told, sender>>
Write == /\ pc = "write" /\ Fails("loop")
         /\ written' = IF failed' THEN written ELSE Append(written, has)
         /\ has' = 0
         /\ UNCHANGED <<sent, closed, errors, ended, told, sender>>
Last == /\ pc = "loop" /\ closed /\ has = 0 /\ pc' = "flush"
        /\ UNCHANGED <<sent, closed, has, written, failed, errors, ended, told, sender>>
Flush == /\ pc = "flush" /\ Fails("end") /\ UNCHANGED <<sent, closed, has, written, errors, ended, told, sender>>
Report == /\ pc = "report" /\ errors = <<>>   \* there is room for one
          /\ errors' = <<"failure">> /\ pc' = "end"
          /\ UNCHANGED <<sent, closed, has, written, failed, ended, told, sender>>
End == /\ pc = "end" /\ ended' = TRUE /\ pc' = "gone"
       /\ UNCHANGED <<sent, closed, has, written, failed, errors, told, sender>>
Writer == Begin \/ Write \/ Last \/ Flush \/ Report \/ End
Next == Send \/ Close \/ GiveUp \/ Read \/ Writer
\* nobody has to read the errors
Spec == Init /\ [][Next]_vars /\ WF_vars(Writer) /\ WF_vars(Send) /\ WF_vars(Close) /\ WF_vars(GiveUp)

Upto(n) == [j \in 1..n |-> j]
InOrder == written = Upto(Len(written)) /\ Len(written) <= sent
Complete == ended /\ ~failed => closed /\ written = Upto(sent)
ToldOnce == Len(errors) + Len(told) <= 1
Told == ended => (failed <=> Len(errors) + Len(told) = 1)
NothingAfter == [][failed => written' = written /\ failed']_vars
NothingSentTwice == [][ended => errors' \in {errors, <<>>}]_vars
Ends == (closed \/ failed) ~> ended
\* a sender that heeds errors is never stuck
NotStuck == Heeds => <>(sender = "done")
==============================================================================
