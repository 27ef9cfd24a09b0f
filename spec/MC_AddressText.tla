---------------------------- MODULE MC_AddressText ---------------------------
(* Texts that look like address lists: what is accepted keeps its meaning    *)
(* when it is written in the plainest way, and the acceptance follows the    *)
(* grammar of RFC 5322 given as a nondeterministic one.                      *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {B("a"), B("@"), B("<"), B(">"), B(","), B(":"), B(";"), B(" "), B("\"q\""), B("."), B("[1]"), B("a@b")}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

(* the grammar on texts without comments, folds and encoded words *)
RECURSIVE NoEdge(_)
NoEdge(t) == IF t # <<>> /\ t[1] = SP THEN NoEdge(Tail(t)) ELSE IF t # <<>> /\ t[Len(t)] = SP THEN NoEdge(SubSeq(t, 1, Len(t) - 1)) ELSE t
IsAtom(t) == t # <<>> /\ \A k \in 1..Len(t) : t[k] = 97 \/ t[k] = 98
IsDot(t) == /\ t # <<>> /\ t[1] # DOT /\ t[Len(t)] # DOT
            /\ \A k \in 1..Len(t) : t[k] \in {97, 98, DOT}
            /\ \A k \in 1..(Len(t) - 1) : ~(t[k] = DOT /\ t[k + 1] = DOT)
IsQuoted(t) == t = B("\"q\"")
IsLocal(t) == IsDot(NoEdge(t)) \/ IsQuoted(NoEdge(t))
IsDomainT(t) == IsDot(NoEdge(t)) \/ NoEdge(t) = B("[1]")
IsSpec(t) == \E k \in 1..Len(t) : t[k] = AT /\ IsLocal(SubSeq(t, 1, k - 1)) /\ IsDomainT(SubSeq(t, k + 1, Len(t)))
RECURSIVE IsWords(_)
(* a run of atoms is split by spaces; quoted strings need none *)
IsWords(t) == LET u == NoEdge(t) IN
    \/ IsAtom(u) \/ IsQuoted(u)
    \/ \E k \in 1..(Len(u) - 1) : /\ IsWords(SubSeq(u, 1, k)) /\ IsWords(SubSeq(u, k + 1, Len(u)))
                                  /\ ~(u[k] \in {97, 98} /\ u[k + 1] \in {97, 98})
Blank(t) == NoEdge(t) = <<>>
IsAngle(t) == LET u == NoEdge(t) IN Len(u) > 2 /\ u[1] = LT /\ u[Len(u)] = GT /\ IsSpec(SubSeq(u, 2, Len(u) - 1))
IsBox(t) == IsSpec(t) \/ \E k \in 0..(Len(t) - 1) : /\ Blank(SubSeq(t, 1, k)) \/ IsWords(SubSeq(t, 1, k))
                                                    /\ IsAngle(SubSeq(t, k + 1, Len(t)))
RECURSIVE IsBoxes(_), IsList(_)
IsBoxes(t) == IsBox(t) \/ \E k \in 2..(Len(t) - 1) : t[k] = COMMA /\ IsBox(SubSeq(t, 1, k - 1)) /\ IsBoxes(SubSeq(t, k + 1, Len(t)))
IsGroupT(t) == \E k \in 2..(Len(t) - 1) : \E e \in (k + 1)..Len(t) :
    /\ t[k] = COLON /\ t[e] = SEMI /\ IsWords(SubSeq(t, 1, k - 1)) /\ Blank(SubSeq(t, e + 1, Len(t)))
    /\ Blank(SubSeq(t, k + 1, e - 1)) \/ IsBoxes(SubSeq(t, k + 1, e - 1))
IsAddr(t) == IsBox(t) \/ IsGroupT(t)
IsList(t) == IsAddr(t) \/ \E k \in 2..(Len(t) - 1) : t[k] = COMMA /\ IsAddr(SubSeq(t, 1, k - 1)) /\ IsList(SubSeq(t, k + 1, Len(t)))

Kind1(head) == Field(AllOn, Kinds, B(head) \o Str \o CRLF, 1)[2].k
Grammar == /\ (Kind1("To:") = "to") = IsList(Str)
           /\ (Kind1("Sender:") = "sender") = IsBox(Str)
           /\ (Kind1("From:") = "from") = IsBoxes(Str)
           /\ (Kind1("Bcc:") = "bcc") = (IsList(Str) \/ Blank(Str))

N == (Len(Str) + Size) % 5
Emit == Size > EmitDepth \/
    (/\ EmitField(B("To:") \o Str \o CRLF)
     /\ EmitField(B(CASE N = 0 -> "From:" [] N = 1 -> "Sender:" [] N = 2 -> "Reply-To:" [] N = 3 -> "Cc:" [] OTHER -> "Bcc:") \o Str \o CRLF))
=============================================================================
