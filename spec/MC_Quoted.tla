------------------------------ MODULE MC_Quoted ------------------------------
(* Quoted strings, dot-atoms and domain literals, each against a definition  *)
(* on the whole text between its delimiters.                                 *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {<<97>>, <<DQUOTE>>, <<BSL>>, <<SP>>, <<TAB>>, CRLF, <<DOT>>, <<LPAR>>, <<126>>, <<200>>, <<RBRK>>}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

(* ---------------------------- quoted strings ---------------------------- *)
(* how many backslashes stand directly in front of k *)
Slashes(t, k) == CHOOSE n \in 0..(k - 1) : /\ \A m \in (k - n)..(k - 1) : t[m] = BSL
                                           /\ n = k - 1 \/ t[k - n - 1] # BSL
Quoted(t, k) == Slashes(t, k) % 2 = 1                   \* the byte is behind a backslash that counts
BreakAt(t, k) == k < Len(t) /\ t[k] = CR /\ t[k + 1] = LF
Counted(t, k) == t[k] \notin WSPs \/ Quoted(t, k)       \* not folding white space
OneBreak(t) ==     \* no two line breaks in one run of white space, and none at the end of it
    \A k \in 1..Len(t) : BreakAt(t, k) =>
        /\ k + 2 <= Len(t) /\ t[k + 2] \in WSPs
        /\ \A m \in (k + 2)..Len(t) : BreakAt(t, m) => \E x \in (k + 2)..(m - 1) : Counted(t, x) /\ t[x] # LF
QuotedGood(t) ==
    /\ OneBreak(t)
    /\ \A k \in 1..Len(t) :
          CASE Quoted(t, k) -> t[k] \in VCHARs \cup WSPs
            [] t[k] = BSL -> k < Len(t)
            [] t[k] = CR -> BreakAt(t, k)
            [] t[k] = LF -> k > 1 /\ t[k - 1] = CR
            [] OTHER -> t[k] \in (VCHARs \cup WSPs) \ {DQUOTE}
Content(t) == LET keep == SelectSeq([k \in 1..Len(t) |-> [c |-> t[k], on |-> t[k] \notin {CR, LF} /\ (t[k] # BSL \/ Quoted(t, k))]],
                                    LAMBDA x : x.on)
              IN [k \in 1..Len(keep) |-> keep[k].c]

Strs == LET s == <<DQUOTE>> \o Str \o <<DQUOTE>>
            r == QuotedString(s, 1)
        IN IF QuotedGood(Str)
           THEN /\ IsOk(r) /\ r[1] = Len(s) + 1 /\ r[2].t = Content(Str)
                (* a slice exactly when the text stands there *)
                /\ (r[2].b > 0) = (Content(Str) = Str /\ Str # <<>>)
                   \/ (r[2].b > 0 /\ SubSeq(s, r[2].b, r[2].b + Len(r[2].t) - 1) = r[2].t)
           ELSE ~IsOk(r) \/ r[1] # Len(s) + 1

(* ------------------------------- dot-atoms ------------------------------ *)
Runs(t, empty) == /\ t # <<>> /\ \A k \in 1..Len(t) : t[k] \in ATEXTs \cup {DOT}
                  /\ t[1] # DOT
                  /\ empty \/ (t[Len(t)] # DOT /\ \A k \in 1..(Len(t) - 1) : ~(t[k] = DOT /\ t[k + 1] = DOT))
Fix == [AllOn EXCEPT !["compatibility-fixes"] = TRUE]
Dots == /\ LET r == DotAtomText(AllOn, Str, 1) IN
               (IsOk(r) /\ r[1] = Len(Str) + 1) = Runs(Str, FALSE) /\ (IsOk(r) => r[2].t = SubSeq(Str, 1, r[1] - 1) /\ r[2].b = 1)
        /\ LET r == DotAtomText(Fix, Str, 1) IN (IsOk(r) /\ r[1] = Len(Str) + 1) = Runs(Str, TRUE)

(* ---------------------------- domain literals --------------------------- *)
LiteralGood(t) == /\ \A k \in 1..Len(t) : \/ t[k] \in DTEXTs \cup WSPs
                                          \/ BreakAt(t, k) \/ (t[k] = LF /\ k > 1 /\ t[k - 1] = CR)
                  /\ \A k \in 1..Len(t) : BreakAt(t, k) =>
                        /\ k + 2 <= Len(t) /\ t[k + 2] \in WSPs
                        /\ \A m \in (k + 2)..Len(t) : BreakAt(t, m) => \E x \in (k + 2)..(m - 1) : t[x] \in DTEXTs
Literals == LET s == <<LBRK>> \o Str \o <<RBRK>>
                r == DomainLiteral(s, 1)
            IN IF LiteralGood(Str) THEN IsOk(r) /\ r[1] = Len(s) + 1 /\ r[2].t = SelectSeq(Str, LAMBDA c : c \in DTEXTs)
               ELSE ~IsOk(r) \/ r[1] # Len(s) + 1

N == (Len(Str) + Size) % 4
Q == <<DQUOTE>> \o Str \o <<DQUOTE>>
Emit == Size > EmitDepth \/
    (/\ EmitField(CASE N = 0 -> B("To: ") \o Q \o L("@b") [] N = 1 -> B("Keywords: x, ") \o Q \o L(" y")
                    [] N = 2 -> B("Content-Type: a/b; x=") \o Q \o L("; y=z") [] OTHER -> B("Cc: ") \o Q \o L(" <a@b>"))
     /\ EmitField(IF N % 2 = 0 THEN B("To: ") \o Str \o L("@b") ELSE B("Cc: a@") \o Str \o CRLF)
     /\ EmitField(B("Reply-To: a@[") \o Str \o L("]")))
=============================================================================
