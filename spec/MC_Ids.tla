------------------------------- MODULE MC_Ids --------------------------------
(* Message identifiers: texts of pieces of identifiers, against the grammar  *)
(*   id = [CFWS] "<" left "@" right ">" [CFWS]                               *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {B("<"), B(">"), B("@"), B("a"), B("."), B("[1]"), B("["), B(" "), B("(c)"), B("<b@c>"), CRLF \o <<TAB>>, B("\"")}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

IsDots(t) == /\ t # <<>> /\ t[1] # DOT /\ t[Len(t)] # DOT
             /\ \A k \in 1..Len(t) : t[k] \in ATEXTs \cup {DOT}
             /\ \A k \in 1..(Len(t) - 1) : ~(t[k] = DOT /\ t[k + 1] = DOT)
IsLit(t) == Len(t) >= 2 /\ t[1] = LBRK /\ t[Len(t)] = RBRK /\ \A k \in 2..(Len(t) - 1) : t[k] \in DTEXTs
(* the parts of an identifier without anything around it: None or Some *)
Whole(t) == LET at == {k \in 2..(Len(t) - 1) : t[k] = AT} IN
            IF Len(t) < 5 \/ t[1] # LT \/ t[Len(t)] # GT \/ Cardinality(at) # 1 THEN None
            ELSE LET k == CHOOSE x \in at : TRUE
                     l == SubSeq(t, 2, k - 1)
                     r == SubSeq(t, k + 1, Len(t) - 1)
                 IN IF ~IsDots(l) THEN None
                    ELSE IF IsDots(r) THEN Some([l |-> l, r |-> r])
                    ELSE IF IsLit(r) THEN Some([l |-> l, r |-> SubSeq(r, 2, Len(r) - 1)])
                    ELSE None
(* white space and comments as they occur in this model *)
RECURSIVE Trim(_)
Trim(t) == IF t = <<>> THEN t
           ELSE IF t[1] \in {SP, TAB} THEN Trim(Tail(t))
           ELSE IF IsAt(t, 1, B("(c)")) THEN Trim(SubSeq(t, 4, Len(t)))
           ELSE IF IsAt(t, 1, CRLF \o <<TAB>>) THEN Trim(SubSeq(t, 4, Len(t)))
           ELSE t
(* every identifier starts behind the previous one *)
RECURSIVE Several(_)
Several(t) == LET u == Trim(t) IN
    IF u = <<>> THEN Some(<<>>)
    ELSE LET e == {k \in 1..Len(u) : Whole(SubSeq(u, 1, k)) # None} IN
         IF e = {} THEN None
         ELSE LET k == CHOOSE x \in e : TRUE
                  more == Several(SubSeq(u, k + 1, Len(u)))
              IN IF more = None THEN None ELSE Some(Whole(SubSeq(u, 1, k)) \o more[1])
(* Two folds without anything in between are not folding white space. Between *)
(* two identifiers they are: each has white space of its own around it.        *)
Folds == {k \in 1..(Len(Str) - 2) : SubSeq(Str, k, k + 1) = CRLF}
TwoFolds == \E k \in Folds, m \in Folds : k < m /\ \A x \in (k + 2)..(m - 1) : Str[x] \in WSPs

Lists == LET f == B("References:") \o Str \o CRLF
             r == Field(AllOn, Kinds, f, 1)
             typed == IsOk(r) /\ r[1] = Len(f) + 1 /\ r[2].k = "references"
             want == Several(Str)
         IN IF want = None \/ want = Some(<<>>) THEN ~typed
            ELSE IF TwoFolds THEN (typed => Len(want[1]) > 1 /\ Erase("references", r[2].v) = want[1])
            ELSE typed /\ Erase("references", r[2].v) = want[1]
Single == LET f == B("Message-ID:") \o Str \o CRLF
              r == Field(AllOn, Kinds, f, 1)
              typed == IsOk(r) /\ r[1] = Len(f) + 1 /\ r[2].k = "messageid"
              want == Several(Str)
          IN IF want = None \/ TwoFolds THEN ~typed
             ELSE typed = (Len(want[1]) = 1) /\ (typed => Erase("messageid", r[2].v) = want[1][1])

N == (Len(Str) + Size) % 6
Emit == Size > EmitDepth \/
    (/\ EmitField(B(IF N % 2 = 0 THEN "References:" ELSE "In-Reply-To:") \o Str \o CRLF)
     /\ CASE N \in 0..2 -> EmitField(B("Message-ID:") \o Str \o CRLF)
          [] N \in 3..4 -> EmitField(B("Content-ID:") \o Str \o CRLF)
          [] OTHER -> EmitMessage(L("Received:;1 Jan 2000 00:00 +0000") \o B("Resent-Message-ID:") \o Str \o CRLF \o Message(<<>>)))
=============================================================================
