------------------------------- MODULE Copies --------------------------------
(* The recorded lives of values, one list of events per message, against     *)
(* what Values allows.                                                       *)
EXTENDS Values, TLC, Json

CONSTANTS TraceFile
Log == ndJsonDeserialize(TraceFile)
Messages == Len(Log) - 1
Record(n) == Log[n + 1]

VARIABLES Message, Event, State, Wrong       \* Event: how many events of the message have happened
vars == <<Message, Event, State, Wrong>>
Init == Message = 1 /\ Event = 0 /\ State = ValuesInit /\ Wrong = 0

NextMessage == Message' = Message + 1 /\ Event' = 0 /\ State' = ValuesInit
Reject(what, want, got) ==
    /\ PrintT(<<"REJECT", Record(Message).id, Record(Message).cfg, what, ToString(want), ToString(got)>>)
    /\ Wrong' = Wrong + 1 /\ NextMessage

Next ==
    /\ Message <= Messages
    /\ IF Record(Message)["end"] # "ok" THEN Reject("end", "ok", Record(Message)["end"])
       ELSE IF Event = Len(Record(Message).events) THEN NextMessage /\ UNCHANGED Wrong
       ELSE \E e \in {Record(Message).events[Event + 1]} :
            IF Fits(State, e) THEN State' = Effect(State, e) /\ Event' = Event + 1 /\ UNCHANGED <<Message, Wrong>>
            ELSE Reject(e.e, IF "v" \in DOMAIN e THEN State.values[e.v] ELSE <<>>, e)
Spec == Init /\ [][Next]_vars

Report == Message <= Messages \/ PrintT(<<"DONE", Messages, "rejected", Wrong>>)
=============================================================================
