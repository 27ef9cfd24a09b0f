------------------------------ MODULE MC_Copies ------------------------------
(* Multiparts with two parts that differ in a few places.  Each place has    *)
(* spellings; those with the same meaning give equal entities, others do     *)
(* not.                                                                      *)
EXTENDS Vectors
CONSTANTS Most, EmitMost

M(lines, m) == [t |-> lines, m |-> m]
Fd(str, m) == M(L(str), m)
Types == <<
    M(<<>>, 0), Fd("Content-Type: text/plain; charset=us-ascii", 0), Fd("Content-Type:TEXT/Plain ; Charset=\"us-ascii\"", 0),
    Fd("Content-Type: text/plain", 1), Fd("Content-Type: text/html; charset=us-ascii", 2), Fd("Content-Type: image/plain; charset=us-ascii", 3),
    Fd("Content-Type: x/plain; charset=us-ascii", 4), Fd("Content-Type: X/plain; charset=us-ascii", 4), Fd("Content-Type: y/plain; charset=us-ascii", 5),
    Fd("Content-Type: text/plain; charset=utf-8", 6), Fd("Content-Type: text/plain; charset*=''utf-8", 6), Fd("Content-Type: text/plain; charset=US-ASCII", 7),
    Fd("Content-Type: text/plain; charset=utf-8; a=b", 8), Fd("Content-Type: text/plain; a=b; charset=utf-8", 8), Fd("Content-Type: text/plain; charset=utf-8; a=c", 9)>>
Encs == <<M(<<>>, 0), Fd("Content-Transfer-Encoding: 7bit", 0), Fd("Content-Transfer-Encoding: 8bit", 0), Fd("Content-Transfer-Encoding: quoted-printable", 0)>>
Descs == <<M(<<>>, 0), Fd("Content-Description:x y", 1), M(L("Content-Description:x") \o L(" y"), 1), Fd("Content-Description:=?utf-8?q?x_y?=", 1), Fd("Content-Description:x  y", 2), Fd("Content-Description:", 3)>>
Ids == <<M(<<>>, 0), Fd("Content-ID:<a@b>", 1), Fd("Content-ID: (c) <a@b>", 1), Fd("Content-ID:<a@c>", 2), Fd("Content-ID:<c@b>", 3)>>
Disps == <<
    M(<<>>, 0), Fd("Content-Disposition: inline", 1), Fd("Content-Disposition:INLINE", 1), Fd("Content-Disposition: attachment", 2), Fd("Content-Disposition: x", 3), Fd("Content-Disposition: X", 3), Fd("Content-Disposition: y", 4),
    Fd("Content-Disposition: inline; filename=f", 5), Fd("Content-Disposition: inline; FILENAME=\"f\"", 5), Fd("Content-Disposition: inline; filename=g", 6), Fd("Content-Disposition: inline; name=f", 7),
    Fd("Content-Disposition: inline; read-date=\"1 Jan 2000 00:00 +0000\"", 8), Fd("Content-Disposition: inline; read-date=\"1 Jan 2000 00:00:00 +0000\"", 8),
    Fd("Content-Disposition: inline; read-date=\"1 Jan 2000 00:00 -0000\"", 9), Fd("Content-Disposition: inline; read-date=\"1 Jan 2000 01:00 +0100\"", 10), Fd("Content-Disposition: inline; read-date=\"Sat, 1 Jan 2000 00:00 +0000\"", 11),
    Fd("Content-Disposition: inline; creation-date=\"1 Jan 2000 00:00 +0000\"", 12), Fd("Content-Disposition: inline; modification-date=\"1 Jan 2000 00:00 +0000\"", 13)>>
Others == <<M(<<>>, 0), Fd("X:1", 1), Fd("x:1", 2), Fd("X: 1", 3), M(L("X:1") \o L("X:1"), 4), M(L("X:1") \o L("Y:1"), 5), M(L("Y:1") \o L("X:1"), 6)>>
Bodies == <<M(B("v"), 0), M(B("w"), 1), M(<<>>, 2)>>
Menu == <<Types, Encs, Descs, Ids, Disps, Others, Bodies>>

(* two parts, chosen place by place; One: places that are not the first choice in both *)
VARIABLES Pair, Odd, Apart
Spec == (Pair = <<>> /\ Odd = 0 /\ Apart = 0) /\
    [][/\ Len(Pair) < Len(Menu)
       /\ \E a, b \in 1..Len(Menu[Len(Pair) + 1]) :
             /\ Pair' = Append(Pair, <<a, b>>)
             /\ Odd' = Odd + (IF a = 1 /\ b = 1 THEN 0 ELSE 1)
             /\ Apart' = Apart + (IF a = b THEN 0 ELSE 1)
             /\ Odd' <= Most]_<<Pair, Odd, Apart>>
Complete == Len(Pair) = Len(Menu)
Piece(k, n) == Menu[k][Pair[k][n]].t
Of(n) == Piece(1, n) \o Piece(2, n) \o Piece(3, n) \o Piece(4, n) \o Piece(5, n) \o Piece(6, n) \o CRLF \o Piece(7, n)
Alike == \A k \in 1..Len(Menu) : Menu[k][Pair[k][1]].m = Menu[k][Pair[k][2]].m

EEntity(e) == [type |-> EKeyword(e.type), sub |-> e.sub.t, params |-> EParams(e.params), desc |-> IF e.desc = None THEN None ELSE Some(e.desc[1].t),
               id |-> IF e.id = None THEN None ELSE Some(EId(e.id[1])), disp |-> IF e.disp = None THEN None ELSE Some(EDisposition(e.disp[1])),
               value |-> e.value.t, add |-> [k \in 1..Len(e.add) |-> [n |-> e.add[k].n.t, v |-> e.add[k].v.t]]]
EqualIff == Complete =>
    LET a == Part(AllOn, Of(1), 1)
        b == Part(AllOn, Of(2), 1)
    IN /\ a # None /\ b # None
       /\ (EEntity(a[1]) = EEntity(b[1])) = Alike

Emit == (Complete /\ Odd <= EmitMost) =>
    EmitMessage(Required \o L("Content-Type: multipart/mixed; boundary=b_") \o CRLF
                \o L("--b_") \o Of(1) \o CRLF \o L("--b_") \o Of(2) \o CRLF \o B("--b_--"))
=============================================================================
