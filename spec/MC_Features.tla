----------------------------- MODULE MC_Features -----------------------------
(* Sets of features that are switched off, or are the only ones: what each   *)
(* kind of field becomes, and which fields an email needs.                   *)
EXTENDS Vectors
CONSTANTS Depth, EmitAll

Item(kind, line) == [kind |-> kind, t |-> L(line)]
Menu == <<
    Item("from", "From: a@b"), Item("date", "Date: 1 Jan 2000 00:00 +0000"), Item("sender", "Sender: s <s@t>"), Item("replyto", "Reply-To: g:;"),
    Item("to", "To: \"n\" <a@b>, c@d"), Item("cc", "Cc: =?utf-8?q?x?= <a@b>"), Item("bcc", "Bcc:"), Item("messageid", "Message-ID: <a@b>"),
    Item("inreplyto", "In-Reply-To: <a@b> <c@d>"), Item("references", "References: <a@b>"), Item("subject", "Subject: =?utf-8?q?=C3=A9?= s"),
    Item("comments", "Comments: (c) =?utf-8?b?YQ==?="), Item("keywords", "Keywords: a, \"b c\""), Item("mimeversion", "MIME-Version: 1.0"),
    Item("contenttype", "Content-Type: text/html; charset=utf-8"), Item("encoding", "Content-Transfer-Encoding: base64"), Item("contentid", "Content-ID: <a@b>"),
    Item("description", "Content-Description: =?utf-8?q?a?="), Item("disposition", "Content-Disposition: inline; filename=f"),
    Item("unknown", "X-y: =?utf-8?q?a?= b"), Item("unknown", "Date: x"), Item("unknown", "To: =?"), Item("unknown", "Content-Type: =?utf-8?q?a?=")>>
Traces == Lines(<<L("Return-Path: <a@b>"), L("Received: x; 1 Jan 2000 00:00 +0000"), L("Resent-Date: 1 Jan 2000 00:00 +0000"), L("Resent-To: a@b"), L("Resent-From: a@b"), L("Resent-Bcc: a@b")>>)

VARIABLES Chosen, Only
Spec == Chosen = {} /\ Only \in BOOLEAN /\ [][Cardinality(Chosen) < Depth /\ UNCHANGED Only /\ \E f \in FeatureNames : Chosen' = Chosen \cup {f}]_<<Chosen, Only>>

(* the features as they are built: MIME needs none of the others, the content  *)
(* disposition needs MIME                                                    *)
Flags == LET on(f) == IF Only THEN f \in Chosen ELSE f \notin Chosen /\ f # "compatibility-fixes"
         IN Eager([f \in FeatureNames |-> on(f) /\ (f # "content-disposition" \/ on("mime"))])

RawText(line) == LET c == CHOOSE k \in 1..Len(line) : line[k] = COLON /\ \A m \in 1..(k - 1) : line[m] # COLON
                 IN SubSeq(line, c + 1, Len(line) - 2)
DecodedText(line) == LET r == EncUnstructured(RawText(line), 1) IN r[2].t
(* switching a feature changes what it names and nothing else *)
Kinds1 == \A n \in 1..Len(Menu) :
    LET r == Field(Flags, Kinds, Menu[n].t, 1)
        all == Field(AllOn, Kinds, Menu[n].t, 1)
        k == Menu[n].kind
        on == k # "unknown" /\ Flags[FeatureOf[k]]
    IN /\ IsOk(r) /\ IsOk(all) /\ r[1] = all[1] /\ all[2].k = k
       /\ r[2].k = IF on THEN k ELSE "unknown"
       /\ on /\ k \notin {"subject", "comments", "cc"} => r[2].v = all[2].v
       /\ on /\ k \in {"subject", "comments"} => r[2].v.t = IF Flags["mime"] THEN DecodedText(Menu[n].t) ELSE RawText(Menu[n].t)
       /\ on /\ k = "cc" => r[2].v[1].boxes = [all[2].v[1].boxes EXCEPT ![1].name = Some(<<Slice(Menu[n].t, 5, 18)>>)] \/ Flags["mime"]
       /\ ~on => r[2].v.t = IF Flags["unrecognized-headers"] THEN DecodedText(Menu[n].t) ELSE RawText(Menu[n].t)

ResentKindsHere == [date |-> 1, to |-> 1, from |-> 1, bcc |-> 1]
Blocks == LET r == Read(Flags, Traces \o CRLF) IN
          /\ r.ok
          /\ IF Flags["trace"]
             THEN /\ Len(r.fields) = 1 /\ r.fields[1].k = "trace" /\ Len(r.fields[1].received) = 1
                  /\ Len(r.fields[1].fields) = 4
             ELSE Len(r.fields) = 6 /\ \A n \in 1..6 : r.fields[n].k = "unknown"

(* which fields are required *)
Sets == SUBSET {"from", "date", "sender"}
Of(k) == CASE k = "from" -> Menu[1].t [] k = "date" -> Menu[2].t [] OTHER -> Menu[3].t
Emails == \A S \in Sets :
    LET m == (IF "date" \in S THEN Of("date") ELSE <<>>) \o (IF "sender" \in S THEN Of("sender") ELSE <<>>) \o (IF "from" \in S THEN Of("from") ELSE <<>>) \o CRLF
        r == Read(Flags, m)
        e == Assemble(Flags, FoldLeft(AsmStep, AsmInit, r.fields), r.body)
    IN /\ r.ok
       /\ e.ok = /\ (Flags["date"] => "date" \in S) /\ (Flags["from"] => "from" \in S)
                 /\ (Flags["sender"] => ("sender" \in S \/ ("from" \in S /\ Flags["from"])))
(* the body: without MIME it stays what it is, and has to be text *)
Bodies == LET m(b) == Required \o L("Content-Transfer-Encoding: base64") \o Menu[3].t \o CRLF \o b
              x == Read(Flags, m(B("YQ==") \o <<233>>))
              y == Read(Flags, m(B("YQ==") \o CRLF))
              e == Assemble(Flags, FoldLeft(AsmStep, AsmInit, y.fields), y.body)
          IN /\ x.ok = Flags["mime"]
             /\ y.ok /\ y.body[1].t = B("YQ==") \o CRLF
             /\ Flags["mime"] => e.ok /\ e.entity[1].value.t = B("a")

(* every pair of lines, behind and in front of the required ones *)
Emit == (Chosen = {} /\ EmitAll) =>
    \A n, m \in 1..Len(Menu) :
        EmitMessage(IF (n + m) % 3 = 0 THEN Menu[n].t \o Required \o Menu[m].t \o CRLF
                    ELSE IF (n + m) % 3 = 1 THEN Traces \o Required \o Menu[n].t \o Menu[m].t \o CRLF \o B("YQ==")
                    ELSE Menu[n].t \o Menu[m].t \o CRLF \o B("YQ=="))
=============================================================================
