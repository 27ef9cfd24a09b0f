------------------------------- MODULE Fields --------------------------------
(* The header fields of a message (RFC 5322, section 3.6): which parser a    *)
(* name selects, and the trace blocks.                                       *)
EXTENDS Mime

(* name ":" -> <<index behind the colon, name>> *)
FieldName(s, i) ==
    LET j == Skip(s, i, IsFtext) IN
    IF j > i /\ At(s, j, COLON) THEN <<j + 1, Slice(s, i, j)>> ELSE Fail

FreeText(F, s, i) == IF F["mime"] THEN EncUnstructured(s, i) ELSE Unstructured(s, i)
UnknownText(F, s, i) == IF F["unrecognized-headers"] THEN EncUnstructured(s, i) ELSE Unstructured(s, i)

(* Bcc may be empty *)
BccList(F, s, i) ==
    LET r == AddressList(F, s, i) IN IF IsOk(r) THEN r ELSE <<OptCfws(s, i), <<>>>>

KeywordList(F, s, i) == CommaList(LAMBDA j : Phrase(F, s, j), s, i)

(* The kinds of fields with a syntax of their own: their name in lower case, *)
(* the feature that enables them.                                            *)
NameOf == [date |-> B("date"), from |-> B("from"), sender |-> B("sender"), replyto |-> B("reply-to"),
           to |-> B("to"), cc |-> B("cc"), bcc |-> B("bcc"), messageid |-> B("message-id"),
           inreplyto |-> B("in-reply-to"), references |-> B("references"), subject |-> B("subject"),
           comments |-> B("comments"), keywords |-> B("keywords"), mimeversion |-> B("mime-version"),
           contenttype |-> B("content-type"), encoding |-> B("content-transfer-encoding"),
           contentid |-> B("content-id"), description |-> B("content-description"),
           disposition |-> B("content-disposition")]
FeatureOf == [date |-> "date", from |-> "from", sender |-> "sender", replyto |-> "reply-to",
           to |-> "to", cc |-> "cc", bcc |-> "bcc", messageid |-> "message-id",
           inreplyto |-> "in-reply-to", references |-> "references", subject |-> "subject",
           comments |-> "comments", keywords |-> "keywords", mimeversion |-> "mime",
           contenttype |-> "mime", encoding |-> "mime", contentid |-> "mime", description |-> "mime",
           disposition |-> "content-disposition"]
Kinds == DOMAIN NameOf
KindByName == Eager([n \in {NameOf[k] : k \in Kinds} |-> CHOOSE k \in Kinds : NameOf[k] = n])
KindOf(name) == IF name \in DOMAIN KindByName THEN KindByName[name] ELSE "unknown"

(* the value of a field of this kind, Fail when it does not follow the syntax *)
Value(F, kind, s, i) ==
    CASE kind = "date"       -> DateAndTime(s, i)
      [] kind = "from"       -> MailboxList(F, s, i)
      [] kind = "sender"     -> Mailbox(F, s, i)
      [] kind \in {"replyto", "to", "cc"} -> AddressList(F, s, i)
      [] kind = "bcc"        -> BccList(F, s, i)
      [] kind \in {"messageid", "contentid"} -> MessageId(F, s, i)
      [] kind \in {"inreplyto", "references"} -> MessageIds(F, s, i)
      [] kind \in {"subject", "comments", "description"} -> FreeText(F, s, i)
      [] kind = "keywords"   -> KeywordList(F, s, i)
      [] kind = "mimeversion" -> MimeVersion(s, i)
      [] kind = "contenttype" -> ContentType(s, i)
      [] kind = "encoding"   -> TransferEncoding(s, i)
      [] kind = "disposition" -> ContentDisposition(s, i)

(* A field of a kind out of `kinds`, or an unknown one.  The result is       *)
(* <<index behind the line, [k, v]>>; unknown fields also have their name.   *)
Field(F, kinds, s, i) ==
    LET n == FieldName(s, i) IN
    IF ~IsOk(n) THEN Fail
    ELSE LET kind == KindOf(Lower(n[2].t))
             typed == IF kind \in kinds /\ F[FeatureOf[kind]] THEN Value(F, kind, s, n[1]) ELSE Fail
         IN IF IsOk(typed) /\ IsAt(s, typed[1], CRLF)
            THEN <<typed[1] + 2, [k |-> kind, v |-> typed[2]]>>
            ELSE LET u == UnknownText(F, s, n[1]) IN
                 IF IsAt(s, u[1], CRLF)
                 THEN <<u[1] + 2, [k |-> "unknown", name |-> n[2], v |-> u[2]]>>
                 ELSE Fail

(* ------------------------------ trace blocks ---------------------------- *)
(* a header line with the given name whose value is read by the parser       *)
ReturnPathName == B("return-path:")
ReceivedName == B("received:")
ResentPrefix == B("resent-")

EmptyPath(s, i) ==
    LET o == OptCfws(s, i) IN
    IF ~At(s, o, LT) THEN 0
    ELSE LET e == OptCfws(s, o + 1) IN IF At(s, e, GT) THEN OptCfws(s, e + 1) ELSE 0

ReturnPath(F, s, i) ==
    IF ~IsAtNoCase(s, i, ReturnPathName) THEN Fail
    ELSE LET v == i + Len(ReturnPathName)
             a == AngleAddr(F, s, v)
             e == EmptyPath(s, v)
             r == IF IsOk(a) THEN <<a[1], Some(a[2])>> ELSE IF e # 0 THEN <<e, None>> ELSE Fail
         IN IF IsOk(r) /\ IsAt(s, r[1], CRLF) THEN <<r[1] + 2, r[2]>> ELSE Fail

(* A token is an address, or a word, or a domain when it is longer than the  *)
(* word that it starts with.                                                 *)
ReceivedToken(F, s, i) ==
    LET a == AddrSpec(F, s, i)
        w == Word(s, i)
        d == Domain(F, s, i)
        g == AngleAddr(F, s, i)
    IN IF IsOk(a) THEN <<a[1], [k |-> "addr", v |-> a[2]]>>
       ELSE IF IsOk(w)
       THEN IF IsOk(d) /\ Len(d[2].t) > Len(w[2].t) THEN <<d[1], [k |-> "domain", v |-> d[2]]>>
            ELSE <<w[1], [k |-> "word", v |-> w[2]]>>
       ELSE IF IsOk(g) THEN <<g[1], [k |-> "addr", v |-> g[2]]>>
       ELSE IF IsOk(d) THEN <<d[1], [k |-> "domain", v |-> d[2]]>>
       ELSE Fail

Received(F, s, i) ==
    IF ~IsAtNoCase(s, i, ReceivedName) THEN Fail
    ELSE LET t == Many(LAMBDA j : ReceivedToken(F, s, j), i + Len(ReceivedName), <<>>)
             o == OptCfws(s, t[1])
         IN IF ~At(s, o, SEMI) THEN Fail
            ELSE LET d == DateAndTime(s, o + 1) IN
                 IF IsOk(d) /\ IsAt(s, d[1], CRLF)
                 THEN <<d[1] + 2, [tokens |-> t[2], date |-> d[2]]>> ELSE Fail

ResentKinds == {"date", "from", "sender", "to", "cc", "bcc", "messageid"}
ResentField(F, s, i) ==
    LET n == FieldName(s, i) IN
    IF ~IsOk(n) \/ ~IsAtNoCase(s, i, ResentPrefix) THEN Fail
    ELSE LET kind == KindOf(Lower(SubSeq(s, i + Len(ResentPrefix), n[1] - 2))) IN
         IF kind \notin ResentKinds THEN Fail
         ELSE LET v == Value(F, kind, s, n[1]) IN
              IF IsOk(v) /\ IsAt(s, v[1], CRLF) THEN <<v[1] + 2, [k |-> kind, v |-> v[2]]>> ELSE Fail

(* [Return-Path] 1*Received *Resent-... *)
TraceBlock(F, s, i) ==
    LET p == ReturnPath(F, s, i)
        r == Many(LAMBDA j : Received(F, s, j), IF IsOk(p) THEN p[1] ELSE i, <<>>)
    IN IF r[2] = <<>> THEN Fail
       ELSE LET f == Many(LAMBDA j : ResentField(F, s, j), r[1], <<>>) IN
            <<f[1], [k |-> "trace", path |-> IF IsOk(p) THEN Some(p[2]) ELSE None,
                     received |-> r[2], fields |-> f[2]]>>
=============================================================================
