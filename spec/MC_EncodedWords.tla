--------------------------- MODULE MC_EncodedWords ---------------------------
(* Texts of items, each with what it means if it stands alone: a text, an    *)
(* encoded word, or something that looks like one and stays as it is.        *)
EXTENDS Vectors
CONSTANTS Depth, EmitDepth

T(str) == [t |-> B(str), word |-> FALSE, v |-> B(str)]
W(str, v) == [t |-> B(str), word |-> TRUE, v |-> v]
Items == <<
    T("ab"), T("=?"), T("?"),
    W("=?utf-8?q?=C3=A9?=", <<233>>), W("=?UTF-8?Q?a_b?=", B("a b")), W("=?iso-8859-1?b?6Q==?=", <<233>>),
    W("=?us-ascii*en?B?YWI=?=", B("ab")), W("=?gb2312?q?=C4=E3?=", <<20320>>), W("=?utf-8?q?x=?=", B("x=")),
    W("=?utf-8?q?=zz_?=", <<65533, 32>>), W("=?iso-8859-15?q?=A4=80?=", <<8364>>), W("=?utf-8?b?====?=", <<>>),
    (* not a charset, an encoding, data; not of this form *)
    T("=?none?q?a?="), T("=?utf-8?x?a?="), T("=?utf-8?b?YQ?="), T("=?utf-8?q?=C3?="), T("=?utf-8?q??="), T("=??q?a?="), T("=?utf-8??a?="),
    T("=?utf-8*?q?a?="), T("=?utf-8q?a?="), T("=?utf-8?q?a?b?=")>>
Seps == <<B(" "), <<>>, CRLF \o <<TAB>>, B("  ") \o CRLF \o B(" ")>>

VARIABLES Chosen          \* <<separator, item>>
Spec == Chosen = <<>> /\ [][Len(Chosen) < Depth /\ \E p \in 1..Len(Seps), n \in 1..Len(Items) : Chosen' = Append(Chosen, <<p, n>>)]_Chosen

N == Len(Chosen)
Item(k) == Items[Chosen[k][2]]
Sep(k) == Seps[Chosen[k][1]]
Flat(s) == SelectSeq(s, LAMBDA c : c \notin {CR, LF})
Written == FoldLeft(LAMBDA o, k : o \o Sep(k) \o Item(k).t, <<>>, [k \in 1..N |-> k])
(* texts without anything in between may make an encoded word *)
Joined == \E k \in 2..N : Sep(k) = <<>> /\ ~Item(k).word /\ ~Item(k - 1).word

(* An encoded word is decoded at the start of the text, behind white space   *)
(* and behind another one that is.                                           *)
RECURSIVE Decoded(_)
Decoded(k) == Item(k).word /\ (k = 1 \/ Sep(k) # <<>> \/ Decoded(k - 1))
Meaning == FoldLeft(LAMBDA o, k :
                        o \o (IF k > 1 /\ Decoded(k) /\ Decoded(k - 1) THEN <<>> ELSE Flat(Sep(k)))
                          \o (IF Decoded(k) THEN Item(k).v ELSE Item(k).t),
                    <<>>, [k \in 1..N |-> k])
Raw == FoldLeft(LAMBDA o, k : o \o Flat(Sep(k)) \o Item(k).t, <<>>, [k \in 1..N |-> k])

Exact == (N > 0 /\ ~Joined) =>
    LET f == B("Subject:") \o Written \o CRLF
        r == Field(AllOn, Kinds, f, 1)
        p == Field(NoMime, Kinds, f, 1)
        x == Field(AllOn, Kinds, B("X:") \o Written \o CRLF, 1)
    IN /\ IsOk(r) /\ r[1] = Len(f) + 1 /\ r[2].k = "subject" /\ r[2].v.t = Meaning
       /\ IsOk(p) /\ p[1] = Len(f) + 1 /\ p[2].v.t = Raw
       /\ IsOk(x) /\ x[2].v.t = Meaning

(* In a phrase each decoded word is one of its words; the texts without      *)
(* anything in between are one.                                              *)
Begins(k) == k = 1 \/ Sep(k) # <<>> \/ Decoded(k) \/ Decoded(k - 1)
WordsOf == FoldLeft(LAMBDA o, k : IF Begins(k) THEN Append(o, IF Decoded(k) THEN Item(k).v ELSE Item(k).t)
                                  ELSE [o EXCEPT ![Len(o)] = o[Len(o)] \o Item(k).t],
                    <<>>, [k \in 1..N |-> k])
Phrases == (N > 0 /\ ~Joined) =>
    LET f == B("Keywords:") \o Written \o CRLF
        r == Field(AllOn, Kinds, f, 1)
        g == B("To:") \o Written \o B(" <a@b>") \o CRLF
        q == Field(AllOn, Kinds, g, 1)
    IN /\ IsOk(r) /\ r[1] = Len(f) + 1 /\ r[2].k = "keywords" /\ ETexts(r[2].v[1]) = WordsOf
       /\ IsOk(q) /\ q[2].k = "to" /\ ETexts(q[2].v[1].boxes[1].name[1]) = WordsOf

Kept == Len(Written) + N
Emit == N > EmitDepth \/
    (/\ EmitField(B("Subject:") \o Written \o CRLF)
     /\ CASE Kept % 6 = 0 -> EmitField(B("Comments:") \o Written \o CRLF)
          [] Kept % 6 = 1 -> EmitField(B("Keywords: k,") \o Written \o CRLF)
          [] Kept % 6 = 2 -> EmitField(B("X-y:") \o Written \o CRLF)
          [] Kept % 6 = 3 -> EmitField(B("Content-Description:") \o Written \o CRLF)
          [] Kept % 6 = 4 -> EmitField(B("Cc:") \o Written \o L(" <a@b>, g:c@d;"))
          [] OTHER -> EmitField(B("To:(c)") \o Written \o L(":a@b;")))
=============================================================================
