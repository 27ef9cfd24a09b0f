-------------------------------- MODULE MC_Qp --------------------------------
(* Quoted-printable and its header variant: every sequence of pieces against *)
(* a definition by rewriting from the left; well-formed pieces mean the      *)
(* concatenation of what each of them means.                                 *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {B("="), B("4"), B("e"), B("G"), <<CR>>, <<LF>>, CRLF, <<SP>>, <<TAB>>, <<233>>, B("_"), B("=3d"), B("."), B("=") \o CRLF}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

Hex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexNum(c) == IF c < 58 THEN c - 48 ELSE IF c < 71 THEN c - 55 ELSE c - 87
RECURSIVE Rewrite(_, _)
Rewrite(t, hdr) ==
    IF t = <<>> THEN <<>>
    ELSE LET c == t[1]
             n == Len(t)
             go(k) == Rewrite(SubSeq(t, k, n), hdr)
         IN IF c = EQ /\ n >= 3
            THEN IF t[2] = CR /\ t[3] = LF THEN go(4)
                 ELSE IF Hex(t[2]) /\ Hex(t[3]) THEN <<HexNum(t[2]) * 16 + HexNum(t[3])>> \o go(4)
                 ELSE Replacement \o go(4)
            ELSE IF c = EQ THEN <<EQ>> \o go(2)
            ELSE IF c = CR /\ n >= 2 /\ t[2] = LF /\ ~hdr THEN CRLF \o go(3)
            ELSE IF hdr /\ c = 95 THEN <<SP>> \o go(2)
            ELSE IF c \in 32..126 \/ (c = TAB /\ ~hdr) THEN <<c>> \o go(2)
            ELSE Replacement \o go(2)
Exact == QpDecode(Str) = Rewrite(Str, FALSE) /\ QDecode(Str) = Rewrite(Str, TRUE)

(* what was encoded is decoded: all bytes as escapes, or plain where that is allowed, with soft breaks *)
Plain(c) == c \in 33..126 /\ c # EQ
RECURSIVE Escaped(_, _)
Escaped(t, k) == IF t = <<>> THEN <<>>
                 ELSE (IF Plain(t[1]) /\ k % 2 = 0 THEN <<t[1]>> ELSE QpEscape(t[1]))
                      \o (IF k % 3 = 2 THEN <<EQ, CR, LF>> ELSE <<>>) \o Escaped(Tail(t), k + 1)
Round == QpDecode(Escaped(Str, 0)) = Str /\ QpDecode(Escaped(Str, 1)) = Str

Coded == L("Content-Transfer-Encoding: quoted-printable")
Alone(t) == Required \o L("Content-Type: a/b") \o Coded \o CRLF \o t
InPart(t) == Required \o L("Content-Type: multipart/mixed; boundary=b") \o CRLF \o L("--b") \o Coded \o CRLF \o t \o CRLF \o B("--b--")
Emit == Size > EmitDepth \/
    (IF Len(Str) % 3 = 0 THEN EmitMessage(InPart(Str)) ELSE EmitMessage(Alone(Str)))
=============================================================================
