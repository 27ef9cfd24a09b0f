------------------------------- MODULE Vectors -------------------------------
(* What the bounded models share: features, messages around a field, and the *)
(* output of the inputs that a model has enumerated.  The driver runs these  *)
(* inputs through the implementation and checks the results with Trace.      *)
(*   VEC F field     one header field that stands for itself                 *)
(*   VEC M message   a complete message                                      *)
EXTENDS Entities, Json

FeatureNames == {FeatureOf[k] : k \in Kinds}
                \cup {"trace", "compatibility-fixes", "unrecognized-headers"}
AllOn == [f \in FeatureNames |-> f # "compatibility-fixes"]
NoMime == [f \in FeatureNames |-> f \notin {"compatibility-fixes", "mime", "content-disposition",
                                            "unrecognized-headers"}]
Off(F, S) == [f \in DOMAIN F |-> F[f] /\ f \notin S]

L(str) == B(str) \o CRLF                            \* a line
Lines(list) == FoldLeft(LAMBDA o, l : o \o l, <<>>, list)

FromLine == L("From: a@b")
DateLine == L("Date: 1 Jan 2000 00:00 +0000")
Required == FromLine \o DateLine
Message(f) == Required \o f \o CRLF

EmitMessage(m) == PrintT("VEC M " \o ToJson(m))
(* f: the field with its line break *)
EmitField(f) ==
    LET r == Field(AllOn, Kinds, f, 1) IN
    IF IsOk(r) /\ r[1] = Len(f) + 1 THEN PrintT("VEC F " \o ToJson(f))
    ELSE EmitMessage(Message(f))

(* ------------------------- values without places ------------------------ *)
ETexts(l) == [k \in 1..Len(l) |-> l[k].t]
EAddr(a) == [local |-> a.local.t, domain |-> a.domain.t]
EMailbox(m) == [name |-> IF m.name = None THEN None ELSE Some(ETexts(m.name[1])), addr |-> EAddr(m.addr)]
EMailboxes(l) == [k \in 1..Len(l) |-> EMailbox(l[k])]
EAddress(a) == [k |-> a.k, name |-> IF a.name = None THEN None ELSE Some(ETexts(a.name[1])),
                boxes |-> EMailboxes(a.boxes)]
EAddresses(l) == [k \in 1..Len(l) |-> EAddress(l[k])]
EId(m) == [l |-> m.l.t, r |-> m.r.t]
EKeyword(x) == [known |-> x.known, text |-> x.text.t]
EParams(s) == {[n |-> p.n.t, v |-> p.v.t] : p \in s}
EType(x) == [type |-> EKeyword(x.type), sub |-> x.sub.t, params |-> EParams(x.params)]
EDisposition(x) == [type |-> EKeyword(x.type), filename |-> IF x.filename = None THEN None ELSE Some(x.filename[1].t),
                    creation |-> x.creation, modification |-> x.modification, read |-> x.read,
                    params |-> EParams(x.params)]
Erase(kind, v) ==
    CASE kind = "date" -> v
      [] kind = "from" -> EMailboxes(v)
      [] kind = "sender" -> EMailbox(v)
      [] kind \in {"replyto", "to", "cc", "bcc"} -> EAddresses(v)
      [] kind \in {"messageid", "contentid"} -> EId(v)
      [] kind \in {"inreplyto", "references"} -> [k \in 1..Len(v) |-> EId(v[k])]
      [] kind \in {"subject", "comments", "description"} -> v.t
      [] kind = "keywords" -> [k \in 1..Len(v) |-> ETexts(v[k])]
      [] kind = "mimeversion" -> v
      [] kind = "contenttype" -> EType(v)
      [] kind = "encoding" -> EKeyword(v)
      [] kind = "disposition" -> EDisposition(v)
EToken(x) == [k |-> x.k, v |-> IF x.k = "addr" THEN EAddr(x.v) ELSE x.v.t]
EReceived(x) == [tokens |-> [k \in 1..Len(x.tokens) |-> EToken(x.tokens[k])], date |-> x.date]
EPath(p) == IF p = None THEN None ELSE Some(IF p[1] = None THEN None ELSE Some(EAddr(p[1][1])))
ETrace(x) == [path |-> EPath(x.path),
              received |-> [k \in 1..Len(x.received) |-> EReceived(x.received[k])],
              fields |-> [k \in 1..Len(x.fields) |-> [k |-> x.fields[k].k, v |-> Erase(x.fields[k].k, x.fields[k].v)]]]
EField(f) == CASE f.k = "unknown" -> [k |-> f.k, name |-> f.name.t, v |-> f.v.t]
               [] f.k = "trace" -> [k |-> f.k, v |-> ETrace(f)]
               [] OTHER -> [k |-> f.k, v |-> Erase(f.k, f.v)]
=============================================================================
