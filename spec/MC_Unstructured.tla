--------------------------- MODULE MC_Unstructured ---------------------------
(* Unfolding, against a definition on the whole text                         *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {<<97>>, B("b:"), <<SP>>, <<TAB>>, CRLF, <<CR>>, <<LF>>, <<127>>, <<200>>, <<92>>}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

(* the places of the line breaks *)
Breaks(t) == {k \in 1..(Len(t) - 1) : t[k] = CR /\ t[k + 1] = LF}
InBreak(t, k) == k \in Breaks(t) \/ (k > 1 /\ (k - 1) \in Breaks(t))
(* every line break is a fold: white space and then text on its line *)
Foldable(t) == \A k \in Breaks(t) :
    /\ k + 2 <= Len(t) /\ t[k + 2] \in WSPs
    /\ \E m \in (k + 3)..Len(t) : t[m] \in VCHARs /\ \A x \in (k + 2)..(m - 1) : t[x] \in WSPs
Clean(t) == \A k \in 1..Len(t) : InBreak(t, k) \/ t[k] \in VCHARs \cup WSPs
Unfolded(t) ==
    LET keep == SelectSeq([k \in 1..Len(t) |-> [i |-> k, c |-> t[k]]], LAMBDA x : ~InBreak(t, x.i))
        last == {k \in 1..Len(keep) : keep[k].c \in VCHARs}
        n == IF last = {} THEN 0 ELSE CHOOSE k \in last : \A m \in last : m <= k
    IN [k \in 1..n |-> keep[k].c]

Exact ==
    LET f == B("X:") \o Str \o CRLF
        r == Field(AllOn, Kinds, f, 1)
        plain == Field(NoMime, Kinds, f, 1)
    IN IF Foldable(Str) /\ Clean(Str)
       THEN IsOk(r) /\ r[1] = Len(f) + 1 /\ r[2].v.t = Unfolded(Str)
            /\ IsOk(plain) /\ plain[2].v = r[2].v
            /\ (r[2].v.b > 0 => SubSeq(f, r[2].v.b, r[2].v.b + Len(r[2].v.t) - 1) = r[2].v.t)
            /\ ((Breaks(Str) = {} /\ r[2].v.t # <<>>) => r[2].v.b = 3)
       ELSE ~IsOk(r) \/ r[1] # Len(f) + 1

Emit == Size > EmitDepth \/
    LET n == Len(Str) % 4
        name == IF n = 0 THEN B("Subject:") ELSE IF n = 1 THEN B("Comments:") ELSE IF n = 2 THEN B("Content-Description:") ELSE B("X-y:")
    IN EmitField(name \o Str \o CRLF) /\ EmitField(B("U:") \o Str \o CRLF)
=============================================================================
