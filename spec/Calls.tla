-------------------------------- MODULE Calls --------------------------------
(* The life of a call: it is made and it returns.  There is no other end: no *)
(* panic, no abort, no call that runs on, no text that is not UTF-8.         *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS TraceFile
Log == ndJsonDeserialize(TraceFile)
Calls == Len(Log) - 1
Call(n) == Log[n + 1]

VARIABLES Made, State, Wrong
Init == Made = 0 /\ State = "idle" /\ Wrong = 0

Make == State = "idle" /\ Made < Calls /\ Made' = Made + 1 /\ State' = "running" /\ UNCHANGED Wrong
Return == State = "running" /\ Call(Made)["end"] = "ok" /\ State' = "idle" /\ UNCHANGED <<Made, Wrong>>
Other == /\ State = "running" /\ ~ENABLED Return
         /\ PrintT(<<"REJECT", Call(Made).id, Call(Made).cfg, "call", "a result", Call(Made)["end"]>>)
         /\ State' = "idle" /\ Wrong' = Wrong + 1 /\ UNCHANGED Made
Next == Make \/ Return \/ Other
Spec == Init /\ [][Next]_<<Made, State, Wrong>> /\ WF_<<Made, State, Wrong>>(Next)

Report == ~(State = "idle" /\ Made = Calls) \/ PrintT(<<"DONE", Calls, "rejected", Wrong>>)
=============================================================================
