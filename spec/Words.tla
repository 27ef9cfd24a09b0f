-------------------------------- MODULE Words --------------------------------
(* Atoms, quoted strings, phrases, unstructured text (RFC 5322, sections     *)
(* 3.2.3 to 3.2.5) and encoded words (RFC 2047).                             *)
(*                                                                           *)
(* F is the record of the enabled features.                                  *)
EXTENDS Whitespace, Decoding, Charset

Atom(s, i) ==
    LET r == Take1(s, OptCfws(s, i), IsAtext) IN
    IF IsOk(r) THEN <<OptCfws(s, r[1]), r[2]>> ELSE Fail

(* the end of atext-run *("." atext-run); the feature compatibility-fixes    *)
(* accepts empty runs behind a dot                                           *)
DotRuns(F, s, j) ==
    LET run(a) == IF ~At(s, a[2], DOT) THEN <<TRUE, a[2]>>
                  ELSE LET k == Skip(s, a[2] + 1, IsAtext) IN
                       IF k > a[2] + 1 \/ F["compatibility-fixes"] THEN <<FALSE, k>>
                       ELSE <<TRUE, a[2]>>
    IN Until(run, <<FALSE, j>>)[2]

DotAtomText(F, s, i) ==
    LET j == Skip(s, i, IsAtext) IN
    IF j = i THEN Fail
    ELSE LET k == DotRuns(F, s, j) IN <<k, Slice(s, i, k)>>

DotAtom(F, s, i) ==
    LET r == DotAtomText(F, s, OptCfws(s, i)) IN
    IF IsOk(r) THEN <<OptCfws(s, r[1]), r[2]>> ELSE Fail

(* ---------------------------- quoted strings ---------------------------- *)
QuotedPair(s, i) ==
    IF At(s, i, BSL) /\ i < Len(s) /\ (IsVchar[s[i + 1]] \/ IsWsp[s[i + 1]])
    THEN <<i + 2, Slice(s, i + 1, i + 2)>> ELSE Fail

FwsText(s, i) == LET r == Fws(s, i) IN IF IsOk(r) THEN r ELSE <<i, EmptyText>>

(* the content: runs of qtext and quoted pairs, each behind optional FWS *)
QContent(s, i) ==
    LET run(a) == LET w == FwsText(s, a[2])
                      q == Take1(s, w[1], IsQtext)
                      r == IF IsOk(q) THEN q ELSE QuotedPair(s, w[1])
                  IN IF IsOk(r) THEN <<FALSE, r[1], Cat(a[3], Cat(w[2], r[2]))>>
                     ELSE <<TRUE, a[2], a[3]>>
        r == Until(run, <<FALSE, i, EmptyText>>)
    IN <<r[2], r[3]>>

QuotedString(s, i) ==
    LET o == OptCfws(s, i) IN
    IF ~At(s, o, DQUOTE) THEN Fail
    ELSE LET c == QContent(s, o + 1)
             w == FwsText(s, c[1])
         IN IF At(s, w[1], DQUOTE)
            THEN <<OptCfws(s, w[1] + 1), Cat(c[2], w[2])>> ELSE Fail

Word(s, i) ==
    LET a == Atom(s, i) IN IF IsOk(a) THEN a ELSE QuotedString(s, i)

(* ----------------------------- encoded words ---------------------------- *)
(* =?charset[*language]?encoding?text?=                                      *)
EwOpen == B("=?")
EwClose == B("?=")
EwB == B("b")
EwQ == B("q")

EwDecode(charset, encoding, data) ==
    LET bytes == IF encoding = EwB THEN B64Decode(data)
                 ELSE IF encoding = EwQ THEN Some(QDecode(data)) ELSE None
    IN IF bytes = None \/ ~KnownCharset(charset) THEN None
       ELSE CharsetDecode(charset, bytes[1])

EncodedWord(s, i) ==
    IF ~IsAt(s, i, EwOpen) THEN Fail
    ELSE LET c == Skip(s, i + 2, IsEcharset)                    \* behind the charset
             g == IF At(s, c, STAR) /\ Skip(s, c + 1, IsEtoken) > c + 1
                  THEN Skip(s, c + 1, IsEtoken) ELSE c          \* behind the language
             e == Skip(s, g + 1, IsEtoken)                      \* behind the encoding
             t == Skip(s, e + 1, IsEtext)                       \* behind the text
         IN IF c = i + 2 \/ ~At(s, g, 63) \/ e = g + 1 \/ ~At(s, e, 63) \/ t = e + 1
               \/ ~IsAt(s, t, EwClose)
            THEN Fail
            ELSE LET v == EwDecode(Lower(SubSeq(s, i + 2, c - 1)), Lower(SubSeq(s, g + 1, e - 1)),
                                   SubSeq(s, e + 1, t - 1))
                 IN IF v = None THEN Fail ELSE <<t + 2, Own(v[1])>>

(* -------------------------------- phrases ------------------------------- *)
PhraseWord(F, s, i) ==
    IF ~F["mime"] THEN Word(s, i)
    ELSE LET e == EncodedWord(s, OptCfws(s, i)) IN
         IF IsOk(e) THEN <<OptCfws(s, e[1]), e[2]>> ELSE Word(s, i)

Phrase(F, s, i) ==
    LET r == Many(LAMBDA j : PhraseWord(F, s, j), i, <<>>) IN IF r[2] = <<>> THEN Fail ELSE r

(* --------------------------- unstructured text -------------------------- *)
Unstructured(s, i) ==
    LET run(a) == LET w == FwsText(s, a[2])
                      v == Take1(s, w[1], IsVchar)
                  IN IF IsOk(v) THEN <<FALSE, v[1], Cat(a[3], Cat(w[2], v[2]))>>
                     ELSE <<TRUE, Skip(s, a[2], IsWsp), a[3]>>   \* trailing white space is dropped
        r == Until(run, <<FALSE, i, EmptyText>>)
    IN <<r[2], r[3]>>

(* With encoded words: the white space between two of them is dropped.       *)
(* a[4]: the previous item was an encoded word, a[5]: the text can not be a  *)
(* slice any more                                                            *)
EncUnstructuredStep(s, a) ==
    LET w == FwsText(s, a[2])
        e == EncodedWord(s, w[1])
        v == Take1(s, w[1], IsVchar)
    IN IF IsOk(e)
       THEN <<FALSE, e[1], Own(a[3].t \o (IF a[4] THEN <<>> ELSE w[2].t) \o e[2].t), TRUE, TRUE>>
       ELSE IF IsOk(v)
       THEN <<FALSE, v[1],
              IF a[5] THEN Own(a[3].t \o w[2].t \o v[2].t) ELSE Cat(a[3], Cat(w[2], v[2])),
              FALSE, a[5]>>
       ELSE <<TRUE, Skip(s, a[2], IsWsp), a[3], a[4], a[5]>>
EncUnstructured(s, i) ==
    LET r == Until(LAMBDA a : EncUnstructuredStep(s, a), <<FALSE, i, EmptyText, FALSE, FALSE>>)
    IN <<r[2], r[3]>>
=============================================================================
