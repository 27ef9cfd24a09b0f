----------------------------- MODULE MC_Comment ------------------------------
(* The comment machine accepts exactly the comments of the grammar           *)
(*   FWS = ([*WSP CRLF] 1*WSP)      ccontent = ctext / quoted-pair / comment *)
(*   comment = "(" *([FWS] ccontent) [FWS] ")"                               *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {<<LPAR>>, <<RPAR>>, <<BSL>>, <<SP>>, CRLF, <<97>>, <<CR>>, <<128>>}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

WspSeq(t) == t # <<>> /\ \A k \in 1..Len(t) : t[k] \in WSPs
Folding(t) == \/ WspSeq(t)
              \/ \E k \in 1..(Len(t) - 2) : /\ t[k] = CR /\ t[k + 1] = LF
                                            /\ k = 1 \/ WspSeq(SubSeq(t, 1, k - 1))
                                            /\ WspSeq(SubSeq(t, k + 2, Len(t)))
RECURSIVE IsContents(_), IsContent(_)
IsComment(t) == Len(t) >= 2 /\ t[1] = LPAR /\ t[Len(t)] = RPAR /\ IsContents(SubSeq(t, 2, Len(t) - 1))
IsContent(t) == \/ Len(t) = 1 /\ t[1] \in CTEXTs
                \/ Len(t) = 2 /\ t[1] = BSL /\ t[2] \in VCHARs \cup WSPs
                \/ Len(t) >= 2 /\ t[1] = LPAR /\ t[Len(t)] = RPAR /\ IsContents(SubSeq(t, 2, Len(t) - 1))
IsContents(t) ==
    \/ t = <<>> \/ Folding(t)
    \/ \E w \in 0..(Len(t) - 1) :
          /\ w = 0 \/ Folding(SubSeq(t, 1, w))
          /\ \E k \in (w + 1)..Len(t) : /\ IsContent(SubSeq(t, w + 1, k))
                                        /\ IsContents(SubSeq(t, k + 1, Len(t)))

Machine ==
    LET s == <<LPAR>> \o Str
        ends == {j \in 1..Len(s) : IsComment(SubSeq(s, 1, j))}
    IN /\ Cardinality(ends) <= 1
       /\ CommentEnd(s, 1) = IF ends = {} THEN 0 ELSE (CHOOSE j \in ends : TRUE) + 1

Emit == Size > EmitDepth \/
    (/\ EmitField(B("Keywords: x(") \o Str \o L("y"))
     /\ EmitField(B("To: a@b(") \o Str \o CRLF))
=============================================================================
