------------------------------ MODULE MC_Email -------------------------------
(* Histories of header fields, and what an email is made of: required and    *)
(* unique fields, the sender, repeatable fields.                             *)
EXTENDS Vectors
CONSTANTS Depth, EmitDepth

U(kind, n, text) == [kind |-> kind, n |-> n, text |-> text]      \* n: mailboxes of From
Units == <<
    U("from", 1, L("From: a@b")), U("from", 1, L("FROM: B <c@d>")), U("from", 2, L("From: a@b, N <e@f>")), U("", 0, L("From: x")),
    U("date", 0, DateLine), U("date", 0, L("date: 2 Feb 2002 02:02 +0202")), U("", 0, L("Date: x")),
    U("sender", 0, L("Sender: S <s@t>")), U("", 0, L("Sender: a@b, c@d")),
    U("replyto", 0, L("Reply-To: a@b")), U("", 0, L("Reply-To:")),
    U("to", 0, L("To: a@b")), U("", 0, L("To: a")),
    U("cc", 0, L("Cc: G:;")), U("", 0, L("Cc:")),
    U("bcc", 0, L("Bcc:")), U("bcc", 0, L("Bcc: a@b")), U("", 0, L("Bcc: ,")),
    U("messageid", 0, L("Message-ID: <a@b>")), U("", 0, L("Message-ID: a")),
    U("inreplyto", 0, L("In-Reply-To: <a@b>")), U("", 0, L("In-Reply-To:")),
    U("references", 0, L("References: <a@b>")), U("", 0, L("References:")),
    U("subject", 0, L("Subject: s")), U("subject", 0, L("Subject:")),
    U("comments", 0, L("Comments: c")), U("comments", 0, L("Comments:")),
    U("keywords", 0, L("Keywords: a b")), U("keywords", 0, L("Keywords: c, \"d\"")), U("", 0, L("Keywords:")),
    U("mimeversion", 0, L("MIME-Version: 1.0")), U("", 0, L("MIME-Version: x")),
    U("contenttype", 0, L("Content-Type: text/html")), U("", 0, L("Content-Type: text")),
    U("encoding", 0, L("Content-Transfer-Encoding: 8bit")), U("", 0, L("Content-Transfer-Encoding:")),
    U("contentid", 0, L("Content-ID: <a@b>")), U("", 0, L("Content-ID:")),
    U("description", 0, L("Content-Description: d")),
    U("disposition", 0, L("Content-Disposition: inline")), U("", 0, L("Content-Disposition: ;")),
    U("", 0, L("X-Y: z")), U("", 0, L("Resent-Date: 1 Jan 2000 00:00 +0000")) >>

VARIABLES Hist
Spec == Hist = <<>> /\ [][Len(Hist) < Depth /\ \E u \in 1..Len(Units) : Hist' = Append(Hist, u)]_Hist

FromU == 1
DateU == 5
Placings == {Hist, <<FromU, DateU>> \o Hist, Hist \o <<DateU, FromU>>, <<FromU>> \o Hist \o <<DateU>>,
             <<DateU>> \o Hist}
Msg(h) == Lines([k \in 1..Len(h) |-> Units[h[k]].text])
Count(h, kind) == Cardinality({k \in 1..Len(h) : Units[h[k]].kind = kind})
AuthorOk(h) == \E k \in 1..Len(h) : Units[h[k]].kind = "from" /\ Units[h[k]].n = 1

Outcome(F, h) ==
    LET r == Read(F, Msg(h))
        a == FoldLeft(AsmStep, AsmInit, r.fields)
    IN [r |-> r, a |-> a, e |-> Assemble(F, a, r.body)]

(* exactly one From and Date, at most one of the others, a sender *)
Rule(h) == /\ Count(h, "from") = 1 /\ Count(h, "date") = 1
           /\ \A k \in SingleKinds : Count(h, k) <= 1
           /\ Count(h, "sender") = 1 \/ AuthorOk(h)
Decides == \A h \in Placings : LET o == Outcome(AllOn, h) IN o.r.ok /\ o.e.ok = Rule(h)

Reasons == \A h \in Placings :
    LET o == Outcome(AllOn, h) IN
    /\ o.a.dup = {k \in SingleKinds : Count(h, k) > 1}
    /\ ("from" \in o.e.missing) = (Count(h, "from") = 0)
    /\ ("date" \in o.e.missing) = (Count(h, "date") = 0)

(* the sender is the Sender field, wherever it stands, or the only author *)
Sender == \A h \in Placings :
    LET o == Outcome(AllOn, h)
        s == SenderOf(AllOn, o.a)
    IN o.e.ok => IF Count(h, "sender") = 1 THEN EMailbox(s[1]).addr = [local |-> B("s"), domain |-> B("t")]
                 ELSE s[1] = o.a.once.from[1][1]

(* the order of fields of different kinds does not matter *)
Rev(h) == [k \in 1..Len(h) |-> h[Len(h) + 1 - k]]
Order == LET x == Outcome(AllOn, Hist)
             y == Outcome(AllOn, Rev(Hist))
         IN /\ x.e.ok = y.e.ok /\ x.a.dup = y.a.dup /\ (x.a.dup = {} => x.e.missing = y.e.missing)
            /\ \A k \in SingleKinds \ x.a.dup :
                  /\ Len(x.a.once[k]) = Len(y.a.once[k])
                  /\ x.a.once[k] # None => Erase(k, x.a.once[k][1]) = Erase(k, y.a.once[k][1])

(* keywords and comments accumulate in order *)
Accumulate ==
    LET o == Outcome(AllOn, Hist)
        val(k) == IF Units[Hist[k]].text = L("Keywords: a b") THEN <<<<B("a"), B("b")>>>>
                  ELSE IF Units[Hist[k]].kind = "keywords" THEN <<<<B("c")>>, <<B("d")>>>> ELSE <<>>
        com(k) == IF Units[Hist[k]].kind # "comments" THEN <<>>
                  ELSE IF Units[Hist[k]].text = L("Comments:") THEN <<<<>>>> ELSE <<B(" c")>>
        index == [k \in 1..Len(Hist) |-> k]
    IN /\ [k \in 1..Len(o.a.keywords) |-> ETexts(o.a.keywords[k])] = FoldLeft(LAMBDA x, k : x \o val(k), <<>>, index)
       /\ ETexts(o.a.comments) = FoldLeft(LAMBDA x, k : x \o com(k), <<>>, index)

Emit == Len(Hist) > EmitDepth \/ \A h \in Placings : EmitMessage(Msg(h))
=============================================================================
