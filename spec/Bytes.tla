------------------------------- MODULE Bytes -------------------------------
(* Bytes, character classes, slices and the text values that the parser      *)
(* reports.  A message is a sequence of numbers 0..255, indexed from 1.      *)
(*                                                                           *)
(* A parser is an operator P(s, i, ...) that reads s from index i.  It       *)
(* returns Fail, or <<j, v>> where j is the index behind what it consumed    *)
(* and v the value.  Parsers that only recognise return the index, 0 is      *)
(* failure.                                                                  *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Fail == <<0>>
IsOk(r) == r[1] # 0

(* TLC keeps a function [x \in S |-> e] unevaluated; comparing it with itself  *)
(* makes it a table, concatenation makes it a tuple.                         *)
Eager(f) == IF f = f THEN f ELSE f
Tup(t) == <<>> \o t

(* Steps from x until x[1] holds: what a parser does repeatedly.  (A stretch  *)
(* of steps is one fold, because TLC is slow when a recursion is deep.)       *)
Stretches == << <<1>>, <<1, 2>>, <<1, 2, 3, 4>>, Tup([k \in 1..8 |-> k]), Tup([k \in 1..16 |-> k]),
                Tup([k \in 1..64 |-> k]), Tup([k \in 1..256 |-> k]), Tup([k \in 1..1024 |-> k]) >>
Until(Step(_), x) ==
    LET RECURSIVE Go(_, _)
        Go(a, n) == IF a[1] THEN a
                    ELSE Go(FoldLeft(LAMBDA b, k : IF b[1] THEN b ELSE Step(b), a, Stretches[n]),
                            IF n = Len(Stretches) THEN n ELSE n + 1)
    IN Go(x, 1)

(* The parser One(i), again and again: <<index, list of the values>> *)
Many(One(_), i, list) ==
    LET r == Until(LAMBDA a : LET v == One(a[2]) IN
                              IF IsOk(v) THEN <<FALSE, v[1], Append(a[3], v[2])>>
                              ELSE <<TRUE, a[2], a[3]>>,
                   <<FALSE, i, list>>)
    IN <<r[2], r[3]>>

(* ---------------------------- literals ---------------------------------- *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdOf == Eager([c \in {SubSeq(Printable, k, k) : k \in 1..Len(Printable)} |->
            31 + (CHOOSE k \in 1..Len(Printable) : SubSeq(Printable, k, k) = c)])
(* B("abc") = <<97, 98, 99>> *)
B(str) == Tup([k \in 1..Len(str) |-> OrdOf[SubSeq(str, k, k)]])

TAB == 9
LF == 10
CR == 13
SP == 32
DQUOTE == 34
PERCENT == 37
LPAR == 40
RPAR == 41
STAR == 42
COMMA == 44
DOT == 46
COLON == 58
SEMI == 59
LT == 60
EQ == 61
GT == 62
AT == 64
LBRK == 91
BSL == 92
RBRK == 93
CRLF == <<CR, LF>>

Byte == 0..255

(* ------------------------- character classes ---------------------------- *)
(* RFC 5322, as functions on bytes so that one application decides           *)
Class(S) == Eager([c \in Byte |-> c \in S])
WSPs    == {SP, TAB}
VCHARs  == 33..126
ALPHAs  == (65..90) \cup (97..122)
DIGITs  == 48..57
SPECIALs == {LPAR, RPAR, LT, GT, LBRK, RBRK, COLON, SEMI, AT, BSL, COMMA, DOT, DQUOTE}
ATEXTs  == VCHARs \ SPECIALs
CTEXTs  == VCHARs \ {LPAR, RPAR, BSL}
QTEXTs  == VCHARs \ {DQUOTE, BSL}
DTEXTs  == VCHARs \ {LBRK, RBRK, BSL}
FTEXTs  == VCHARs \ {COLON}
TEXTs   == (1..127) \ {CR, LF}
(* RFC 2045: token *)
TSPECIALs == {LPAR, RPAR, LT, GT, AT, COMMA, SEMI, COLON, BSL, DQUOTE, 47, LBRK, RBRK, 63, EQ}
TOKENs  == VCHARs \ TSPECIALs
(* RFC 2047: token of an encoded word *)
ESPECIALs == {LPAR, RPAR, LT, GT, AT, COMMA, SEMI, COLON, BSL, DQUOTE, 47, LBRK, RBRK, 63, DOT, EQ}
ETOKENs == VCHARs \ ESPECIALs
ETEXTs  == VCHARs \ {63}

IsWsp   == Class(WSPs)
IsVchar == Class(VCHARs)
IsAlpha == Class(ALPHAs)
IsDigit == Class(DIGITs)
IsAtext == Class(ATEXTs)
IsCtext == Class(CTEXTs)
IsQtext == Class(QTEXTs)
IsDtext == Class(DTEXTs)
IsFtext == Class(FTEXTs)
IsText  == Class(TEXTs)
IsToken == Class(TOKENs)
IsAttr  == Class(TOKENs \ {STAR})            \* parameter names, RFC 2231
IsEtoken == Class(ETOKENs)
IsEcharset == Class(ETOKENs \ {STAR})        \* an encoded word charset ends at `*`
IsEtext == Class(ETEXTs)

(* ------------------------------ scanning -------------------------------- *)
At(s, i, c) == i <= Len(s) /\ s[i] = c

IsAt(s, i, lit) == /\ i + Len(lit) - 1 <= Len(s)
                   /\ \A k \in 1..Len(lit) : s[i + k - 1] = lit[k]

LowerOf == Eager([c \in Byte |-> IF c \in 65..90 THEN c + 32 ELSE c])
Lower(t) == Tup([k \in 1..Len(t) |-> IF t[k] \in 65..90 THEN t[k] + 32 ELSE t[k]])

(* lit must be given in lower case *)
IsAtNoCase(s, i, lit) == /\ i + Len(lit) - 1 <= Len(s)
                         /\ \A k \in 1..Len(lit) : LowerOf[s[i + k - 1]] = lit[k]

(* The first index from i on whose byte is not in the class (TLC enumerates  *)
(* the interval upwards; the second conjunct makes the choice unique).       *)
Skip(s, i, T) == CHOOSE j \in i..(Len(s) + 1) :
                    /\ (j > Len(s) \/ ~T[s[j]])
                    /\ \A k \in i..(j - 1) : T[s[k]]

(* One behind a comma each *)
CommaList(One(_), s, i) ==
    LET f == One(i)
        next(j) == IF At(s, j, COMMA) THEN One(j + 1) ELSE Fail
    IN IF IsOk(f) THEN Many(next, f[1], <<f[2]>>) ELSE Fail

(* ------------------------------- text ----------------------------------- *)
(* A text is its code points plus b: the index of the first byte when the    *)
(* text is a borrowed slice of the input, 0 when it is an owned copy (or     *)
(* empty).                                                                   *)
EmptyText == [t |-> <<>>, b |-> 0]
Own(t) == [t |-> t, b |-> 0]
Slice(s, i, j) == [t |-> SubSeq(s, i, j - 1), b |-> IF j > i THEN i ELSE 0]

(* Concatenation stays borrowed exactly when the two slices are adjacent.    *)
Cat(x, y) ==
    IF x.t = <<>> THEN y
    ELSE IF y.t = <<>> THEN x
    ELSE IF x.b > 0 /\ y.b = x.b + Len(x.t) THEN [t |-> x.t \o y.t, b |-> x.b]
    ELSE Own(x.t \o y.t)

(* Lower-casing keeps the slice when nothing changes. *)
LowerText(x) == LET l == Lower(x.t) IN IF l = x.t THEN x ELSE Own(l)

(* take_while1 *)
Take1(s, i, T) == LET j == Skip(s, i, T) IN IF j > i THEN <<j, Slice(s, i, j)>> ELSE Fail

None == <<>>
Some(v) == <<v>>
=============================================================================
