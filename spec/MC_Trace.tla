------------------------------ MODULE MC_Trace -------------------------------
(* Histories of trace fields, and how they are grouped into blocks           *)
EXTENDS Vectors
CONSTANTS Depth, EmitDepth

U(k, text) == [k |-> k, text |-> text]
(* p Return-Path, r Received, s Resent, x anything else *)
Units == <<
    U("p", L("Return-Path: <>")), U("p", L("return-path:(c) <a@b>")), U("x", L("Return-Path: a@b")),
    U("r", L("Received: from x by y.z; 1 Jan 2000 00:00 +0000")), U("r", L("RECEIVED:;2 Feb 2002 02:02:02 -0202")),
    U("x", L("Received: from x by y.z")), U("x", L("Received: x; 1 Jan")),
    U("s", L("Resent-Date: 1 Jan 2000 00:00 +0000")), U("s", L("resent-to: a@b, G:;")), U("s", L("Resent-Bcc:")),
    U("s", L("Resent-Message-ID: <a@b>")), U("x", L("Resent-From: a")), U("x", L("Resent-Reply-To: a@b")),
    U("s", L("Resent-From: a@b, c@d")), U("s", L("Resent-Sender: N <a@b>")), U("s", L("Resent-Cc: a@b")),
    U("x", L("Subject: s")), U("x", L("X: y")) >>

VARIABLES Hist
Spec == Hist = <<>> /\ [][Len(Hist) < Depth /\ \E u \in 1..Len(Units) : Hist' = Append(Hist, u)]_Hist
Msg(h) == Lines([k \in 1..Len(h) |-> Units[h[k]].text])
K(k) == Units[Hist[k]].k

(* [p] r+ s* *)
IsBlock(i, j) ==
    /\ i <= j
    /\ \E m \in i..(i + 1) : \E n \in m..j :
          /\ \A k \in i..(m - 1) : K(k) = "p"
          /\ \A k \in m..n : K(k) = "r"
          /\ \A k \in (n + 1)..j : K(k) = "s"
Maximal(i, j) == IsBlock(i, j) /\ (j = Len(Hist) \/ ~IsBlock(i, j + 1))
(* ends of the blocks from i on *)
RECURSIVE Ends(_)
Ends(i) == LET e == {j \in i..Len(Hist) : Maximal(i, j)} IN
           IF e = {} THEN <<>> ELSE LET j == CHOOSE j \in e : \A x \in e : x <= j IN <<j>> \o Ends(j + 1)

RECURSIVE Sizes(_)
Sizes(l) == IF l = <<>> THEN <<>>
            ELSE <<Len(l[1].path) + Len(l[1].received) + Len(l[1].fields)>> \o Sizes(Tail(l))
RECURSIVE Sums(_, _)
Sums(l, n) == IF l = <<>> THEN <<>> ELSE <<n + l[1]>> \o Sums(Tail(l), n + l[1])

Grouped ==
    LET r == Read(AllOn, Msg(Hist))
        blocks == SelectSeq(r.fields, LAMBDA f : f.k = "trace")
        ends == Ends(1)
    IN /\ r.ok
       /\ Sums(Sizes(blocks), 0) = ends
       (* what lies behind is reported as single fields *)
       /\ Len(r.fields) = Len(blocks) + Len(Hist) - (IF ends = <<>> THEN 0 ELSE ends[Len(ends)])

Emit == Len(Hist) > EmitDepth \/ EmitMessage(Msg(Hist) \o Message(<<>>))
=============================================================================
