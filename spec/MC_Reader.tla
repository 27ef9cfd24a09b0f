------------------------------ MODULE MC_Reader ------------------------------
(* Where the header section ends, against a definition on whole lines; and   *)
(* the reader always moves forward.                                          *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {B("S:"), <<97>>, <<SP>>, CRLF, <<CR>>, <<LF>>, <<COLON>>, <<0>>, <<233>>, L("T: b")}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

(* the first line break from i on that is not followed by white space *)
LineEnd(s, i) ==
    LET a == {j \in i..(Len(s) - 1) : s[j] = CR /\ s[j + 1] = LF /\ (j + 2 > Len(s) \/ s[j + 2] \notin WSPs)} IN
    IF a = {} THEN 0 ELSE CHOOSE j \in a : \A m \in a : j <= m
(* the logical lines up to the empty line: [ok, lines, rest] *)
RECURSIVE Logical(_, _, _)
Logical(s, i, list) ==
    IF i > Len(s) THEN [ok |-> TRUE, lines |-> list, body |-> None]
    ELSE IF IsAt(s, i, CRLF) THEN [ok |-> TRUE, lines |-> list, body |-> Some(SubSeq(s, i + 2, Len(s)))]
    ELSE LET e == LineEnd(s, i) IN
         IF e = 0 THEN [ok |-> FALSE, lines |-> list, body |-> None]
         ELSE Logical(s, e + 2, Append(list, SubSeq(s, i, e - 1)))

Folds(t) == {k \in 1..(Len(t) - 1) : t[k] = CR /\ t[k + 1] = LF}
LegalLine(t) ==
    LET f == Folds(t) IN
    \E c \in 2..Len(t) :
        /\ t[c] = COLON
        /\ \A k \in 1..(c - 1) : t[k] \in FTEXTs
        /\ \A k \in (c + 1)..Len(t) : t[k] \in VCHARs \cup WSPs \/ k \in f \/ (k - 1) \in f
        /\ \A k \in f : \E m \in (k + 3)..Len(t) : t[m] \in VCHARs /\ \A x \in (k + 2)..(m - 1) : t[x] \in WSPs
LegalBody(b) ==         \* without MIME, every line is short here
    \A k \in 1..Len(b) : /\ b[k] \in 1..127
                         /\ (b[k] = CR => k < Len(b) /\ b[k + 1] = LF)
                         /\ (b[k] = LF => k > 1 /\ b[k - 1] = CR)

Exact ==
    LET g == Logical(Str, 1, <<>>)
        heads == g.ok /\ \A k \in 1..Len(g.lines) : LegalLine(g.lines[k])
        m == Read(AllOn, Str)
        p == Read(NoMime, Str)
    IN /\ m.ok = heads
       /\ p.ok = (heads /\ (g.body # None => LegalBody(g.body[1])))
       /\ m.ok => /\ Len(m.fields) = Len(g.lines)
                  /\ Len(m.body) = Len(g.body)
                  /\ (g.body # None => m.body[1].t = g.body[1]
                         /\ (g.body[1] # <<>> => m.body[1].b = Len(Str) - Len(g.body[1]) + 1))

(* every field covers at least one byte, in order *)
RECURSIVE Forward(_, _, _)
Forward(F, s, st) ==
    LET n == ReaderStep(F, s, st) IN
    n.ph \in {"done", "error"} \/ (n.pos > st.pos /\ n.pos <= Len(s) + 1 /\ Forward(F, s, n))
Progress == Forward(AllOn, Str, ReaderInit)

Emit == Size > EmitDepth \/ (EmitMessage(Str) /\ EmitMessage(FromLine \o Str \o DateLine))
=============================================================================
