------------------------------- MODULE MC_Names ------------------------------
(* Names of header fields, complete and nearly complete, in any case; values *)
(* that do not follow the syntax of their field.                             *)
EXTENDS Vectors

Samples == [
    date |-> [good |-> {B(" Mon, 1 Jan 2001 10:20:30 +0000")}, bad |-> {B(""), B(" 1 Jan"), B(" 32 Jan 2001 10:20 +0000"), B(" 1 Jan 2001 10:20 +0000 x")}],
    from |-> [good |-> {B(" x <c@d>")}, bad |-> {B(""), B(" x"), B(" a@b,"), B(" a@b c@d"), B(" G:;")}],
    sender |-> [good |-> {B(" x <c@d>")}, bad |-> {B(""), B(" x"), B(" a@b, c@d"), B(" a@b (")}],
    replyto |-> [good |-> {B(" G: a@b;, c@d")}, bad |-> {B(""), B(" G:"), B(" @b"), B(" a@b;")}],
    to |-> [good |-> {B(" c@d")}, bad |-> {B(""), B(" a@"), B(" ,a@b"), B(" <a@b")}],
    cc |-> [good |-> {B(" G: a@b;, c@d")}, bad |-> {B(""), B(" a b@c"), B(" <>")}],
    bcc |-> [good |-> {B(""), B(" (c)"), B(" a@b")}, bad |-> {B(" a"), B(" ,"), B(" a@b,")}],
    messageid |-> [good |-> {B(" <a.b@c>")}, bad |-> {B(""), B(" a@b"), B(" <a@b> <c@d>"), B(" <a @b>"), B(" <a>")}],
    inreplyto |-> [good |-> {B(" <a@b><c@d>")}, bad |-> {B(""), B(" <a@b>,<c@d>"), B(" x <a@b>")}],
    references |-> [good |-> {B(" <a@[b]> <c@d>")}, bad |-> {B(""), B(" <a@b> x"), B(" <@b>")}],
    subject |-> [good |-> {B(" x"), B("")}, bad |-> {}],
    comments |-> [good |-> {B(" x"), B("")}, bad |-> {}],
    keywords |-> [good |-> {B(" a b, \"c\"")}, bad |-> {B(""), B(" a,"), B(" ,a"), B(" a@b"), B(" a.b")}],
    mimeversion |-> [good |-> {B(" 1.0"), B("(x)1 . 0")}, bad |-> {B(""), B(" 1"), B(" 1."), B(" 1.0.0"), B(" 256.0"), B(" a.b")}],
    contenttype |-> [good |-> {B(" text/html; a=b")}, bad |-> {B(""), B(" text"), B(" text/"), B(" text/plain;"), B(" text/plain; a"), B(" text /plain")}],
    encoding |-> [good |-> {B(" 8bit"), B(" x-y (c)")}, bad |-> {B(""), B(" a b"), B(" a/b"), B(" 8bit;")}],
    contentid |-> [good |-> {B(" <a@b>")}, bad |-> {B(""), B(" a"), B(" <a@b> x")}],
    description |-> [good |-> {B(" x"), B("")}, bad |-> {}],
    disposition |-> [good |-> {B(" inline; filename=a")}, bad |-> {B(""), B(" ;"), B(" inline; "), B(" inline x")}]
    ]

Flip(c) == IF c \in 97..122 THEN c - 32 ELSE IF c \in 65..90 THEN c + 32 ELSE c
Upper(t) == [k \in 1..Len(t) |-> IF t[k] \in 97..122 THEN t[k] - 32 ELSE t[k]]
(* the ways to write a name, exactly and wrongly *)
Spellings(n) == {n, Upper(n)} \cup {[n EXCEPT ![k] = Flip(n[k])] : k \in 1..Len(n)}
                \cup {[k \in 1..Len(n) |-> IF (k % 2) = 0 THEN Flip(n[k]) ELSE n[k]]}
Misspellings(n) ==
    {SubSeq(n, 1, k) : k \in 1..(Len(n) - 1)}
    \cup {SubSeq(n, k, Len(n)) : k \in 2..Len(n)}
    \cup {SubSeq(n, 1, k - 1) \o SubSeq(n, k + 1, Len(n)) : k \in 1..Len(n)}
    \cup {SubSeq(n, 1, k) \o SubSeq(n, k, Len(n)) : k \in 1..Len(n)}
    \cup {[n EXCEPT ![k] = x] : k \in 1..Len(n), x \in {45, 95, 120, 46}}
    \cup {n \o x : x \in {B("s"), B("-"), B("-x"), B("2"), n, B("."), B(";"), B("(c)"), B(" ")}}
    \cup {x \o n : x \in {B("x"), B("x-"), B("-"), B("resent-"), B("(c)"), B("content-")}}

VARIABLES Kind, Name, Val, Good
Init == /\ Kind \in Kinds
        /\ \/ /\ Name \in Spellings(NameOf[Kind]) \cup Misspellings(NameOf[Kind])
              /\ Good = TRUE /\ Val = CHOOSE v \in Samples[Kind].good : \A w \in Samples[Kind].good : Len(w) <= Len(v)
           \/ /\ Name \in {NameOf[Kind], Upper(NameOf[Kind])} /\ Good = TRUE /\ Val \in Samples[Kind].good
           \/ /\ Name \in {NameOf[Kind], Upper(NameOf[Kind])} /\ Good = FALSE /\ Val \in Samples[Kind].bad
Spec == Init /\ [][UNCHANGED <<Kind, Name, Val, Good>>]_<<Kind, Name, Val, Good>>

FieldText == Name \o <<COLON>> \o Val \o CRLF
Legal == \A k \in 1..Len(Name) : Name[k] \in FTEXTs
RTrim(t) == IF t = <<>> THEN t ELSE IF \A k \in 1..Len(t) : t[k] \in WSPs THEN <<>>
            ELSE SubSeq(t, 1, CHOOSE k \in 1..Len(t) : t[k] \notin WSPs /\ \A m \in (k + 1)..Len(t) : t[m] \in WSPs)
Recognised ==
    LET r == Field(AllOn, Kinds, FieldText, 1)
        same == {k \in Kinds : NameOf[k] = Lower(Name)}
    IN IF ~Legal THEN ~IsOk(r)
       ELSE /\ IsOk(r)
            /\ (r[2].k # "unknown" => same = {r[2].k})
            /\ (Good /\ same = {Kind} => r[2].k = Kind)
            /\ (~Good => r[2].k = "unknown")
            /\ (r[2].k = "unknown" => r[2].name.t = Name /\ r[2].v.t = RTrim(Val))
(* A field that is not enabled is unknown. *)
Disabled ==
    LET r == Field(Off(AllOn, {FeatureOf[Kind]}), Kinds, FieldText, 1)
    IN (Legal /\ Lower(Name) = NameOf[Kind]) => IsOk(r) /\ r[2].k = "unknown" /\ r[2].name.t = Name
Emit == EmitField(FieldText)
=============================================================================
