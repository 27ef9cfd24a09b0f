-------------------------------- MODULE Trace --------------------------------
(* Checks what the implementation reported against the specification.        *)
(*                                                                           *)
(* The file has one line of JSON per input: the bytes, what parse_message,   *)
(* Email::parse and RawEntity::parse returned.  The machine of the           *)
(* specification reads the same bytes; each of its steps has to produce the  *)
(* next thing that the implementation reported: a trace block or field, the  *)
(* end of the header section, the email, an entity of the MIME tree.  A      *)
(* difference is printed as a REJECT line and the rest of the case is        *)
(* skipped.                                                                  *)
EXTENDS Entities, Json, IOUtils

CONSTANTS CheckSpans,      \* also compare which slices are borrowed (C22)
          TraceFile

Log == ndJsonDeserialize(TraceFile)
Features == Log[1].cfgs                 \* the name of a configuration -> its features
Cases == Len(Log) - 1
Case(n) == Log[n + 1]

VARIABLES
    Current,          \* the case
    Reader,         \* the reader of the specification
    Matched,          \* how many fields have been matched
    Kept,        \* the fields assembled so far
    Tree,       \* the entities known so far, from the specification
    Entity,          \* the entity that is parsed next
    Phase,         \* "fields", "email", "entities", "done"
    Bad         \* rejected cases

vars == <<Current, Reader, Matched, Kept, Tree, Entity, Phase, Bad>>

In(k) == Case(k)["in"]
Cfg(k) == Features[Case(k).cfg]

(* ----------------------------- comparisons ------------------------------ *)
(* buf: the buffer whose slices are reported; x: specification, y: reported  *)
Reported(buf, y) ==
    IF y.b > 0
    THEN LET d == SubSeq(buf, y.b, y.b + y.n - 1)
             u == Utf8Decode(d)
         IN IF u = None THEN d ELSE u[1]
    ELSE y.t
SpanOk(x, y) == ~CheckSpans \/ x.b = 0 \/ y.b = -1 \/ y.b = x.b
SameText(buf, x, y) == x.t = Reported(buf, y) /\ SpanOk(x, y)
SameBytes(buf, x, y) ==
    /\ SpanOk(x, y)
    /\ IF y.b > 0 THEN IF y.b = x.b THEN Len(x.t) = y.n ELSE x.t = SubSeq(buf, y.b, y.b + y.n - 1)
       ELSE x.t = y.t

SameSeq(buf, x, y, Same(_, _, _)) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Same(buf, x[k], y[k])

SameTexts(buf, x, y) == SameSeq(buf, x, y, SameText)
SameAddrSpec(buf, x, y) == SameText(buf, x.local, y.local) /\ SameText(buf, x.domain, y.domain)
SameMailbox(buf, x, y) == SameSeq(buf, x.name, y.name, SameTexts) /\ SameAddrSpec(buf, x.addr, y.addr)
SameMailboxes(buf, x, y) == SameSeq(buf, x, y, SameMailbox)
SameAddress(buf, x, y) == /\ x.k = y.k
                          /\ SameSeq(buf, x.name, y.name, SameTexts)
                          /\ SameMailboxes(buf, x.boxes, y.boxes)
SameAddresses(buf, x, y) == SameSeq(buf, x, y, SameAddress)
SameId(buf, x, y) == SameText(buf, x.l, y.l) /\ SameText(buf, x.r, y.r)
SameIds(buf, x, y) == SameSeq(buf, x, y, SameId)
SamePhrases(buf, x, y) == SameSeq(buf, x, y, SameTexts)
SameNamed(buf, x, y) == SameText(buf, x.n, y.n) /\ SameText(buf, x.v, y.v)
(* parameters have no order; each name occurs once *)
SameParams(buf, x, y) ==
    LET texts == {[n |-> Reported(buf, y[k].n), v |-> Reported(buf, y[k].v)] : k \in 1..Len(y)}
    IN /\ Cardinality(x) = Len(y)
       /\ {[n |-> p.n.t, v |-> p.v.t] : p \in x} = texts
       /\ CheckSpans => \A p \in x : \E k \in 1..Len(y) : SameNamed(buf, p, y[k])
SameKeyword(buf, x, y) == /\ x.known = y.known
                          /\ IF x.known THEN x.text.t = y.text.t ELSE SameText(buf, x.text, y.text)
SameDate(buf, x, y) == x = y
SameDisposition(buf, x, y) ==
    /\ SameKeyword(buf, x.type, y.type)
    /\ SameSeq(buf, x.filename, y.filename, SameText)
    /\ x.creation = y.creation /\ x.modification = y.modification /\ x.read = y.read
    /\ SameParams(buf, x.params, y.params)
SameType(buf, x, y) == /\ SameKeyword(buf, x.type, y.type)
                       /\ SameText(buf, x.sub, y.sub)
                       /\ SameParams(buf, x.params, y.params)

SameValue(buf, k, x, y) ==
    CASE k = "date" -> x = y
      [] k = "from" -> SameMailboxes(buf, x, y)
      [] k = "sender" -> SameMailbox(buf, x, y)
      [] k \in {"replyto", "to", "cc", "bcc"} -> SameAddresses(buf, x, y)
      [] k \in {"messageid", "contentid"} -> SameId(buf, x, y)
      [] k \in {"inreplyto", "references"} -> SameIds(buf, x, y)
      [] k \in {"subject", "comments", "description"} -> SameText(buf, x, y)
      [] k = "keywords" -> SamePhrases(buf, x, y)
      [] k = "mimeversion" -> x = y
      [] k = "contenttype" -> SameType(buf, x, y)
      [] k = "encoding" -> SameKeyword(buf, x, y)
      [] k = "disposition" -> SameDisposition(buf, x, y)

SameToken(buf, x, y) == x.k = y.k /\ (IF x.k = "addr" THEN SameAddrSpec(buf, x.v, y.v) ELSE SameText(buf, x.v, y.v))
SameReceived(buf, x, y) == x.date = y.date /\ SameSeq(buf, x.tokens, y.tokens, SameToken)
SameResent(buf, x, y) == x.k = y.k /\ SameValue(buf, x.k, x.v, y.v)
SameOptAddr(buf, x, y) == SameSeq(buf, x, y, SameAddrSpec)
SameTrace(buf, x, y) == /\ SameSeq(buf, x.path, y.path, SameOptAddr)
                        /\ SameSeq(buf, x.received, y.received, SameReceived)
                        /\ SameSeq(buf, x.fields, y.fields, SameResent)

SameField(buf, x, y) ==
    /\ x.k = y.k
    /\ CASE x.k = "unknown" -> SameText(buf, x.name, y.name) /\ SameText(buf, x.v, y.v)
         [] x.k = "trace"   -> SameTrace(buf, x, y)
         [] OTHER           -> SameValue(buf, x.k, x.v, y.v)

CompositeTypes == {B("message"), B("multipart")}
SameEntity(buf, x, y) ==
    /\ SameType(buf, x, y)
    /\ SameSeq(buf, x.desc, y.desc, SameText)
    /\ SameSeq(buf, x.id, y.id, SameId)
    /\ SameSeq(buf, x.disp, y.disp, SameDisposition)
    /\ SameBytes(buf, x.value, y.value)
    /\ SameSeq(buf, x.add, y.add, SameNamed)
    /\ y.composite = (x.type.known /\ x.type.text.t \in CompositeTypes)
    /\ y.same

(* the parts of one entity are slices of its value *)
SameParsed(buf, x, y) ==
    /\ x.k = y.k
    /\ CASE x.k = "multipart" -> x.sub.t = y.sub.t /\ SameSeq(buf, x.parts, y.parts, SameEntity)
         [] x.k = "text" -> x.sub.t = y.sub.t /\ SameText(buf, x.text, y.text)
         [] OTHER -> TRUE

(* the fields that an email keeps *)
KeptOnce == {"date", "from", "subject", "to", "cc", "bcc", "replyto", "messageid", "inreplyto", "references"}

(* An error has to be one of the reasons that the specification gives.       *)
ErrorOk(r, y) ==
    CASE y.err = "dup"     -> \E k \in r.dup : NameOf[k] = y.name
      [] y.err = "missing" -> \E k \in r.missing : NameOf[k] = y.name
      [] OTHER             -> r.undecodable

SameEmail(F, buf, a, r, body, y) ==
    IF ~r.ok THEN ~y.ok /\ y.shown /\ ErrorOk(r, y)
    ELSE /\ y.ok
         /\ \A k \in KeptOnce : F[FeatureOf[k]] =>
                /\ Len(a.once[k]) = Len(y.once[k])
                /\ a.once[k] # None => SameValue(buf, k, a.once[k][1], y.once[k][1])
         /\ F["sender"] => SameMailbox(buf, SenderOf(F, a)[1], y.sender)
         /\ F["comments"] => SameTexts(buf, a.comments, y.comments)
         /\ F["keywords"] => SamePhrases(buf, a.keywords, y.keywords)
         /\ F["trace"] => SameSeq(buf, a.trace, y.trace, SameTrace)
         /\ SameSeq(buf, a.unknown, y.unknown, SameNamed)
         /\ IF F["mime"] THEN SameEntity(buf, r.entity[1], y.entity)
            ELSE SameSeq(buf, body, y.body, SameBytes)

(* ------------------------------- the steps ------------------------------ *)
Start(k) == /\ Reader = ReaderInit /\ Matched = 0 /\ Kept = AsmInit /\ Tree = <<>> /\ Entity = 1
            /\ Phase = "fields" /\ Current = k
NextCase ==
    /\ Current' = Current + 1 /\ Reader' = ReaderInit /\ Matched' = 0 /\ Kept' = AsmInit /\ Tree' = <<>> /\ Entity' = 1
    /\ Phase' = IF Current + 1 > Cases THEN "done" ELSE "fields"

Init == Start(1) /\ Bad = 0

Reject(what, expected, got) ==
    /\ PrintT(<<"REJECT", Case(Current).id, Case(Current).cfg, what, ToString(expected), ToString(got)>>)
    /\ Bad' = Bad + 1
    /\ NextCase

(* The case ended in a panic, or with text that is not UTF-8. *)
Broken == /\ Phase = "fields" /\ Reader.pos = 1 /\ Case(Current)["end"] # "ok"
          /\ Reject(Case(Current)["end"], "a result", "none")

(* a trace block or field *)
FieldStep(F, s, pm, r) ==
    IF ~pm.ok       \* nothing is reported; the specification has to find the error as well
    THEN /\ Reader' = r /\ UNCHANGED <<Current, Matched, Kept, Tree, Entity, Phase, Bad>>
    ELSE IF Matched + 1 > Len(pm.fields) THEN Reject("field lost", r.out[1], "none")
    ELSE IF ~SameField(s, r.out[1], pm.fields[Matched + 1]) THEN Reject("field", r.out[1], pm.fields[Matched + 1])
    ELSE /\ Reader' = r /\ Matched' = Matched + 1 /\ Kept' = AsmStep(Kept, r.out[1])
         /\ UNCHANGED <<Current, Tree, Entity, Phase, Bad>>

(* the end of the header section: the body *)
BodyStep(F, s, pm, r) ==
    IF ~pm.ok THEN Reject("accepted", "fields and body", "error")
    ELSE IF Matched # Len(pm.fields) THEN Reject("field invented", "none", pm.fields[Matched + 1])
    ELSE IF ~SameSeq(s, r.body, pm.body, SameBytes) THEN Reject("body", r.body, pm.body)
    ELSE /\ Reader' = r /\ Phase' = "email"
         /\ UNCHANGED <<Current, Matched, Kept, Tree, Entity, Bad>>

(* not a message *)
ErrorStep(pm, em) ==
    IF pm.ok THEN Reject("not rejected", "error", pm)
    ELSE IF em.ok THEN Reject("email not rejected", "error", em)
    ELSE NextCase /\ UNCHANGED Bad

ReadStep ==
    /\ Phase = "fields" /\ ~(Reader.pos = 1 /\ Case(Current)["end"] # "ok")
    /\ LET F == Cfg(Current)
           s == In(Current)
       IN \E r \in {ReaderStep(F, s, Reader)} :           \* evaluated once
          CASE r.ph = "error" -> ErrorStep(Case(Current).pm, Case(Current).em)
            [] r.ph = "done"  -> BodyStep(F, s, Case(Current).pm, r)
            [] OTHER          -> FieldStep(F, s, Case(Current).pm, r)

EmailStep ==
    /\ Phase = "email"
    /\ LET F == Cfg(Current) IN
       \E r \in {Assemble(F, Kept, Reader.body)} :
          IF ~SameEmail(F, In(Current), Kept, r, Reader.body, Case(Current).em)
          THEN Reject("email", <<r, Kept>>, Case(Current).em)
          ELSE IF r.ok /\ F["mime"]
          THEN /\ Tree' = r.entity /\ Phase' = "entities"
               /\ UNCHANGED <<Current, Reader, Matched, Kept, Entity, Bad>>
          ELSE NextCase /\ UNCHANGED Bad

(* one entity of the tree; the report may stop before the end of the tree *)
EntityStep ==
    /\ Phase = "entities"
    /\ LET ents == Case(Current).ents IN
       IF Entity > Len(Tree) \/ Entity > Len(ents)
       THEN IF Len(ents) = Len(Tree) \/ (Len(ents) < Len(Tree) /\ Len(ents) >= 400)
            THEN NextCase /\ UNCHANGED Bad
            ELSE Reject("entities", Len(Tree), Len(ents))
       ELSE \E x \in {ParseEntity(Cfg(Current), Tree[Entity])} :
            IF ~SameParsed(Tree[Entity].value.t, x, ents[Entity])
            THEN Reject("entity", x, ents[Entity])
            ELSE /\ Tree' = IF x.k = "multipart" THEN Tree \o x.parts ELSE Tree
                 /\ Entity' = Entity + 1
                 /\ UNCHANGED <<Current, Reader, Matched, Kept, Phase, Bad>>

Next == Current <= Cases /\ (Broken \/ ReadStep \/ EmailStep \/ EntityStep)
Spec == Init /\ [][Next]_vars

(* every case has been read to its end *)
Report == Phase # "done" \/ PrintT(<<"DONE", Cases, "rejected", Bad>>)
Accepted == TRUE
=============================================================================
