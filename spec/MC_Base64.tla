------------------------------ MODULE MC_Base64 ------------------------------
(* Base64: every sequence of symbols, padding and foreign bytes against a    *)
(* definition by groups, and what was encoded is what is decoded, with       *)
(* foreign bytes anywhere.                                                   *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {B("A"), B("Q"), B("/"), B("="), CRLF, B("-"), <<200>>}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

V(c) == B64Value[c]
(* without what is not in the alphabet *)
Kept == SelectSeq(Str, LAMBDA c : V(c) < 64 \/ c = EQ)
RECURSIVE NoPad(_), Groups(_)
NoPad(t) == IF t # <<>> /\ t[1] = EQ THEN NoPad(Tail(t)) ELSE t
(* the bytes of the groups of t; padding counts only behind two symbols *)
Groups(t) ==
    LET u == NoPad(t)
        w == IF u = <<>> THEN <<>> ELSE NoPad(Tail(u))
    IN IF u = <<>> THEN Some(<<>>)
       ELSE IF Len(w) < 3 THEN None
       ELSE LET a == V(u[1])
                b == V(w[1])
                rest == Groups(SubSeq(w, 4, Len(w)))
                out == IF w[2] = EQ THEN IF w[3] = EQ THEN Some(<<a * 4 + b \div 16>>) ELSE None
                       ELSE LET c == V(w[2]) IN
                            IF w[3] = EQ THEN Some(<<a * 4 + b \div 16, (b % 16) * 16 + c \div 4>>)
                            ELSE Some(<<a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + V(w[3])>>)
            IN IF out = None \/ rest = None THEN None ELSE Some(out[1] \o rest[1])
Exact == B64Decode(Str) = Groups(Kept)

(* the bytes of the string, encoded, with a foreign byte in front of each symbol *)
Junk(e) == FoldLeft(LAMBDA o, c : o \o <<10, 33, c, 240>>, <<>>, e)
Round == LET e == B64Encode(Str) IN
         /\ Len(e) % 4 = 0
         /\ B64Decode(e) = Some(Str) /\ B64Decode(Junk(e)) = Some(Str)
         (* stopping inside a group is noticed *)
         /\ \A k \in 1..Len(e) : (k % 4 # 0) => B64Decode(SubSeq(e, 1, k)) = None

Base64 == L("Content-Transfer-Encoding: base64")
Alone(t) == Required \o L("Content-Type: a/b") \o Base64 \o CRLF \o t
InPart(t) == Required \o L("Content-Type: multipart/mixed; boundary=b") \o CRLF \o L("--b") \o Base64 \o CRLF \o t \o CRLF \o B("--b--")
Emit == Size > EmitDepth \/
    (IF Len(Str) % 3 = 0 THEN EmitMessage(InPart(Str)) ELSE EmitMessage(Alone(Str)))
=============================================================================
