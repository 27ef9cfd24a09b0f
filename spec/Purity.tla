-------------------------------- MODULE Purity -------------------------------
(* A history of calls.  The parser keeps no state: the result of a call is a *)
(* function of the bytes alone.  Memo holds the result that each input has   *)
(* had first; every later call on the same bytes, in whatever order, from    *)
(* whichever thread and wherever the bytes lie, has to agree.  The recorded  *)
(* history is sorted by input (the calls on one input stay in order), so     *)
(* that the memo of one input is enough.                                     *)
(*                                                                           *)
(* Events: in (the input), op (parse, try_from, parse_message), how, ok, res *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS TraceFile
Log == ndJsonDeserialize(TraceFile)
Events == Len(Log) - 1
Event(n) == Log[n + 1]

Unseen == [res |-> "", ok |-> FALSE]
NoMemo == [email |-> Unseen, message |-> Unseen]
(* parse and try_from are the same function *)
Class(op) == IF op = "parse_message" THEN "message" ELSE "email"

VARIABLES Now, Memo, Wrong
Init == Now = 1 /\ Memo = NoMemo /\ Wrong = 0

Fits(e, m) ==
    LET c == Class(e.op)
        new == [m EXCEPT ![c] = [res |-> e.res, ok |-> e.ok]]
    IN /\ m[c] = Unseen \/ m[c].res = e.res
       (* an email is made of the fields of the message *)
       /\ (new.email.ok /\ new.message # Unseen) => new.message.ok

Next ==
    /\ Now <= Events
    /\ Now' = Now + 1
    /\ LET e == Event(Now)
           m == IF Now > 1 /\ Event(Now - 1)["in"] # e["in"] THEN NoMemo ELSE Memo
       IN IF Fits(e, m)
          THEN /\ Memo' = [m EXCEPT ![Class(e.op)] = [res |-> e.res, ok |-> e.ok]]
               /\ UNCHANGED Wrong
          ELSE /\ PrintT(<<"REJECT", e.id, e.cfg, e.op, "the result of the first call", e.how>>)
               /\ Wrong' = Wrong + 1 /\ Memo' = m
Spec == Init /\ [][Next]_<<Now, Memo, Wrong>>

Report == Now <= Events \/ PrintT(<<"DONE", Events, "rejected", Wrong>>)
=============================================================================
