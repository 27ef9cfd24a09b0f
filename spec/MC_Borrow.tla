------------------------------ MODULE MC_Borrow ------------------------------
(* Which texts are slices of the input: what is reported as a slice stands   *)
(* there, and a text that stands in the input as it is is a slice.           *)
EXTENDS Strings
CONSTANTS Depth, EmitDepth

Tokens == {B("a"), B("b.c"), B(" "), B("(c)"), B("\"d e\""), B("\"\\f\""), CRLF \o B(" "), B("=?utf-8?q?x?="), B(","), B("<g@h>"), B("I"), B("u@[v w]"), B("u@[v]"), B(";p=q"), B("X:")}
Spec == Empty /\ [][Grow(Tokens, Depth)]_strings

(* the texts of a value *)
TAddr(a) == {a.local, a.domain}
TWords(l) == {l[k] : k \in 1..Len(l)}
TBox(m) == TAddr(m.addr) \cup (IF m.name = None THEN {} ELSE TWords(m.name[1]))
TBoxes(l) == UNION {TBox(l[k]) : k \in 1..Len(l)}
TAddress(a) == TBoxes(a.boxes) \cup (IF a.name = None THEN {} ELSE TWords(a.name[1]))
TId(m) == {m.l, m.r}
TParams(s) == UNION {{p.n, p.v} : p \in s}
Texts(k, v) == CASE k = "from" -> TBoxes(v) [] k = "sender" -> TBox(v)
                 [] k = "to" -> UNION {TAddress(v[n]) : n \in 1..Len(v)}
                 [] k \in {"messageid"} -> TId(v) [] k = "references" -> UNION {TId(v[n]) : n \in 1..Len(v)}
                 [] k = "subject" -> {v} [] k = "keywords" -> UNION {TWords(v[n]) : n \in 1..Len(v)}
                 [] k = "contenttype" -> {v.sub} \cup TParams(v.params)
                 [] k = "disposition" -> TParams(v.params) \cup (IF v.filename = None THEN {} ELSE {v.filename[1]})
                 [] k = "encoding" -> {}
                 [] OTHER -> {}
Fronts == <<B("Subject:"), B("X-y:"), B("Keywords:"), B("To:"), B("From:"), B("Message-ID:"), B("References:"), B("Content-Type:t/"), B("Content-Disposition:x;r="), B("Content-Type:text/")>>
TextsOf(f) == IF f.k = "unknown" THEN {f.name, f.v} ELSE Texts(f.k, f.v)

Stands(f, x) == \E i \in 1..(Len(f) - Len(x.t) + 1) : SubSeq(f, i, i + Len(x.t) - 1) = x.t
Sound == \A n \in 1..Len(Fronts) :
    LET f == Fronts[n] \o Str \o CRLF
        r == Field(AllOn, Kinds, f, 1)
    IN IsOk(r) => \A x \in TextsOf(r[2]) : x.b > 0 => x.t # <<>> /\ SubSeq(f, x.b, x.b + Len(x.t) - 1) = x.t
(* Folds, escapes and encoded words are the reasons for copies; white space  *)
(* is one in a domain literal, a capital letter in what has no case.         *)
Simple == ~\E k \in 1..Len(Str) : \/ Str[k] \in {CR, BSL, 73, 88} \/ IsAt(Str, k, EwOpen) \/ IsAt(Str, k, B("v w"))
Sharp == Simple => \A n \in 1..Len(Fronts) :
    LET f == Fronts[n] \o Str \o CRLF
        r == Field(AllOn, Kinds, f, 1)
    IN IsOk(r) => \A x \in TextsOf(r[2]) : x.t # <<>> => x.b > 0
(* a copy is made only for a reason: the text does not stand in the field *)
Needed == ~\E k \in 1..Len(Str) : IsAt(Str, k, EwOpen) \/ Str[k] \in {73, 88}
Copies == Needed => \A n \in 1..Len(Fronts) :
    LET f == Fronts[n] \o Str \o CRLF
        r == Field(AllOn, Kinds, f, 1)
    IN IsOk(r) => \A x \in TextsOf(r[2]) : (x.b = 0 /\ Len(x.t) > 2) => ~Stands(f, x)

Emit == Size > EmitDepth \/
    \A n \in {((Len(Str) + Size) % 10) + 1, ((Len(Str) + 2 * Size + 3) % 10) + 1} : EmitField(Fronts[n] \o Str \o CRLF)
=============================================================================
