------------------------------- MODULE Message -------------------------------
(* A message is read by a machine that consumes one trace block or one       *)
(* header field per step; at the end of the header section it reports the    *)
(* body.  The fields are assembled into an email by a second machine.        *)
EXTENDS Fields

(* ------------------------- reading the message -------------------------- *)
(* ph:   "trace"  at the top, trace blocks are recognised                    *)
(*       "fields" behind the first other field                               *)
(*       "done" / "error"                                                    *)
(* pos:  what lies before has been consumed                                  *)
(* out:  what the last step produced: None, Some(field)                      *)
(* body: None, or Some(text) when the header section ends with an empty line *)
ReaderInit == [ph |-> "trace", pos |-> 1, out |-> None, body |-> None]

(* Without MIME a body consists of lines of at most 998 ASCII characters.    *)
LineMax == 998
RECURSIVE PlainBody(_, _)
PlainBody(s, i) ==
    LET j == Skip(s, i, IsText)
        e == IF j - i > LineMax THEN i + LineMax ELSE j
    IN IF IsAt(s, e, CRLF) THEN PlainBody(s, e + 2) ELSE e > Len(s)

EndOfFields(F, s, st) ==
    LET i == st.pos IN
    IF i > Len(s) THEN [st EXCEPT !.ph = "done", !.out = None]
    ELSE IF IsAt(s, i, CRLF) /\ (F["mime"] \/ PlainBody(s, i + 2))
    THEN [st EXCEPT !.ph = "done", !.out = None, !.body = Some(Slice(s, i + 2, Len(s) + 1)),
                    !.pos = Len(s) + 1]
    ELSE [st EXCEPT !.ph = "error", !.out = None]

ReaderStep(F, s, st) ==
    LET t == IF st.ph = "trace" /\ F["trace"] THEN TraceBlock(F, s, st.pos) ELSE Fail
        f == Field(F, Kinds, s, st.pos)
    IN IF IsOk(t) THEN [st EXCEPT !.pos = t[1], !.out = Some(t[2])]
       ELSE IF IsOk(f) THEN [st EXCEPT !.ph = "fields", !.pos = f[1], !.out = Some(f[2])]
       ELSE EndOfFields(F, s, st)

Read(F, s) ==
    LET run(a) == LET n == ReaderStep(F, s, a[2]) IN
                  IF n.ph \in {"done", "error"} THEN <<TRUE, n, a[3]>>
                  ELSE <<FALSE, n, Append(a[3], n.out[1])>>
        r == Until(run, <<FALSE, ReaderInit, <<>>>>)
    IN [ok |-> r[2].ph = "done", fields |-> r[3], body |-> r[2].body]

(* ------------------------------- assembling ----------------------------- *)
(* Fields that may occur once, and their place in the email.                 *)
SingleKinds == Kinds \ {"comments", "keywords"}

AsmInit == [once |-> [k \in SingleKinds |-> None], dup |-> {}, comments |-> <<>>,
            keywords |-> <<>>, trace |-> <<>>, unknown |-> <<>>]

AsmStep(a, f) ==
    CASE f.k \in SingleKinds -> IF a.once[f.k] = None THEN [a EXCEPT !.once[f.k] = Some(f.v)]
                                ELSE [a EXCEPT !.dup = a.dup \cup {f.k}]
      [] f.k = "comments" -> [a EXCEPT !.comments = Append(a.comments, f.v)]
      [] f.k = "keywords" -> [a EXCEPT !.keywords = a.keywords \o f.v]
      [] f.k = "trace"    -> [a EXCEPT !.trace = Append(a.trace, f)]
      [] f.k = "unknown"  -> [a EXCEPT !.unknown = Append(a.unknown, [n |-> f.name, v |-> f.v])]

(* The sender is the only author when there is no Sender field. *)
SenderOf(F, a) ==
    IF a.once.sender # None THEN a.once.sender
    ELSE IF F["from"] /\ a.once.from # None
    THEN IF Len(a.once.from[1]) = 1 THEN Some(a.once.from[1][1]) ELSE None
    ELSE None

MissingKinds(F, a) ==
    {k \in {"from", "date"} : F[k] /\ a.once[k] = None}
    \cup (IF F["sender"] /\ SenderOf(F, a) = None THEN {"sender"} ELSE {})

AsmType(a) == IF a.once.contenttype = None THEN DefaultType ELSE a.once.contenttype[1]
AsmValue(a, body) ==
    IF body = None THEN Some(EmptyText)
    ELSE DecodeBody(IF a.once.encoding = None THEN SevenBit ELSE a.once.encoding[1], body[1])

(* The email, or the reasons why there is none: the duplicate and missing    *)
(* kinds, undecodable body.                                                  *)
Assemble(F, a, body) ==
    LET value == IF F["mime"] THEN AsmValue(a, body) ELSE Some(EmptyText)
        missing == MissingKinds(F, a)
    IN [ok |-> a.dup = {} /\ missing = {} /\ value # None,
        dup |-> a.dup, missing |-> missing, undecodable |-> value = None,
        entity |-> IF F["mime"] /\ value # None
                   THEN Some([type |-> AsmType(a).type, sub |-> AsmType(a).sub,
                              params |-> AsmType(a).params, value |-> value[1],
                              desc |-> a.once.description, id |-> a.once.contentid,
                              disp |-> a.once.disposition, add |-> <<>>])
                   ELSE None]
=============================================================================
