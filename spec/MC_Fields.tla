------------------------------ MODULE MC_Fields ------------------------------
(* Histories of header lines.  Each line is reported once, in order, and     *)
(* with the value that it has on its own.                                    *)
EXTENDS Vectors
CONSTANTS Depth, EmitDepth

Units == <<
    L("From: a@b"), L("Date: 1 Jan 2000 00:00 +0000"), L("Date: 1 Foo 2000 00:00 +0000"), L("From: a"),
    L("Subject:"), L("Subject: x") , B("Subject: x") \o CRLF \o L(" y: z"), L("To: G:;, c@d"), L("To:"), L("Keywords: a, b"),
    L("Comments: c"), L("X: From: a@b"), L("subject-x: y"), L("Content-Type: text/html"), L("Content-Type: text"),
    L("Received: x; 1 Jan 2000 00:00 +0000"), L("Received: x"), L("Return-Path: <>"),
    L("Resent-To: a@b"), L("Resent-X: y"), L("Resent-Date: x"), L("Bcc:") >>

VARIABLES Hist
Spec == Hist = <<>> /\ [][Len(Hist) < Depth /\ \E u \in 1..Len(Units) : Hist' = Append(Hist, u)]_Hist
Msg(h) == Lines([k \in 1..Len(h) |-> Units[h[k]]])

(* the number of lines that a reported item stands for *)
Weight(f) == IF f.k = "trace" THEN Len(f.path) + Len(f.received) + Len(f.fields) ELSE 1
RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN 0 ELSE Weight(l[1]) + Sum(Tail(l))
HasTrace(l) == {k \in 1..Len(l) : l[k].k = "trace"}
Alone(F, u) == EField(Field(F, Kinds, Units[u], 1)[2])

Complete == \A F \in {AllOn, NoMime} :
    LET r == Read(F, Msg(Hist))
        t == Cardinality(HasTrace(r.fields))
        lead == Sum(SubSeq(r.fields, 1, t))
    IN /\ r.ok /\ r.body = None
       /\ Sum(r.fields) = Len(Hist)
       (* trace blocks stand at the top *)
       /\ HasTrace(r.fields) = 1..t
       (* the other fields are what they are alone *)
       /\ \A k \in (t + 1)..Len(r.fields) : EField(r.fields[k]) = Alone(F, Hist[k - t + lead])

(* without the trace feature each line is a field of its own *)
Plainly ==
    LET F == Off(AllOn, {"trace"})
        r == Read(F, Msg(Hist))
    IN r.ok /\ Len(r.fields) = Len(Hist) /\ \A k \in 1..Len(Hist) : EField(r.fields[k]) = Alone(F, Hist[k])

(* fields of the email, in order *)
Kept ==
    LET r == Read(AllOn, Msg(Hist))
        a == FoldLeft(AsmStep, AsmInit, r.fields)
        of(kind) == SelectSeq(r.fields, LAMBDA f : f.k = kind)
    IN /\ [k \in 1..Len(a.unknown) |-> a.unknown[k].v] = [k \in 1..Len(a.unknown) |-> of("unknown")[k].v]
       /\ Len(a.unknown) = Len(of("unknown")) /\ Len(a.trace) = Len(of("trace"))
       /\ Len(a.comments) = Len(of("comments"))

Emit == Len(Hist) > EmitDepth \/
        (EmitMessage(Msg(Hist)) /\ EmitMessage(FromLine \o Msg(Hist) \o L("Date: 2 Feb 2002 02:02 +0202"))
         /\ EmitMessage(Msg(Hist) \o Required))
=============================================================================
