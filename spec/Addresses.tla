------------------------------ MODULE Addresses ------------------------------
(* Addresses and message identifiers (RFC 5322, sections 3.4 and 3.6.4)      *)
EXTENDS Words

(* ------------------------------ addr-spec ------------------------------- *)
(* The folding white space inside a domain literal is not part of it.        *)
LiteralText(s, i) ==
    LET run(a) == LET d == Take1(s, OptFws(s, a[2]), IsDtext) IN
                  IF IsOk(d) THEN <<FALSE, d[1], Cat(a[3], d[2])>>
                  ELSE <<TRUE, OptFws(s, a[2]), a[3]>>
        r == Until(run, <<FALSE, i, EmptyText>>)
    IN <<r[2], r[3]>>

DomainLiteral(s, i) ==
    LET o == OptCfws(s, i) IN
    IF ~At(s, o, LBRK) THEN Fail
    ELSE LET r == LiteralText(s, o + 1) IN
         IF At(s, r[1], RBRK) THEN <<OptCfws(s, r[1] + 1), r[2]>> ELSE Fail

LocalPart(F, s, i) ==
    LET a == DotAtom(F, s, i) IN IF IsOk(a) THEN a ELSE QuotedString(s, i)
Domain(F, s, i) ==
    LET a == DotAtom(F, s, i) IN IF IsOk(a) THEN a ELSE DomainLiteral(s, i)

AddrSpec(F, s, i) ==
    LET l == LocalPart(F, s, i) IN
    IF ~IsOk(l) \/ ~At(s, l[1], AT) THEN Fail
    ELSE LET d == Domain(F, s, l[1] + 1) IN
         IF IsOk(d) THEN <<d[1], [local |-> l[2], domain |-> d[2]]>> ELSE Fail

AngleAddr(F, s, i) ==
    LET o == OptCfws(s, i) IN
    IF ~At(s, o, LT) THEN Fail
    ELSE LET a == AddrSpec(F, s, o + 1) IN
         IF IsOk(a) /\ At(s, a[1], GT) THEN <<OptCfws(s, a[1] + 1), a[2]>> ELSE Fail

(* ------------------------------- mailboxes ------------------------------ *)
NameAddr(F, s, i) ==
    LET p == Phrase(F, s, i)
        a == AngleAddr(F, s, IF IsOk(p) THEN p[1] ELSE i)
    IN IF IsOk(a)
       THEN <<a[1], [name |-> IF IsOk(p) THEN Some(p[2]) ELSE None, addr |-> a[2]]>>
       ELSE Fail

Mailbox(F, s, i) ==
    LET n == NameAddr(F, s, i) IN
    IF IsOk(n) THEN n
    ELSE LET a == AddrSpec(F, s, i) IN
         IF IsOk(a) THEN <<a[1], [name |-> None, addr |-> a[2]]>> ELSE Fail

MailboxList(F, s, i) == CommaList(LAMBDA j : Mailbox(F, s, j), s, i)

(* ------------------------------- addresses ------------------------------ *)
Group(F, s, i) ==
    LET p == Phrase(F, s, i) IN
    IF ~IsOk(p) \/ ~At(s, p[1], COLON) THEN Fail
    ELSE LET l == MailboxList(F, s, p[1] + 1)
             r == IF IsOk(l) THEN l ELSE <<OptCfws(s, p[1] + 1), <<>>>>
         IN IF At(s, r[1], SEMI)
            THEN <<OptCfws(s, r[1] + 1), [k |-> "group", name |-> Some(p[2]), boxes |-> r[2]]>>
            ELSE Fail

Address(F, s, i) ==
    LET m == Mailbox(F, s, i) IN
    IF IsOk(m) THEN <<m[1], [k |-> "mailbox", name |-> None, boxes |-> <<m[2]>>]>>
    ELSE Group(F, s, i)

AddressList(F, s, i) == CommaList(LAMBDA j : Address(F, s, j), s, i)

(* --------------------------- message identifiers ------------------------ *)
NoFoldLiteral(s, i) ==
    IF ~At(s, i, LBRK) THEN Fail
    ELSE LET j == Skip(s, i + 1, IsDtext) IN
         IF At(s, j, RBRK) THEN <<j + 1, Slice(s, i + 1, j)>> ELSE Fail

MessageId(F, s, i) ==
    LET o == OptCfws(s, i) IN
    IF ~At(s, o, LT) THEN Fail
    ELSE LET l == DotAtomText(F, s, o + 1) IN
         IF ~IsOk(l) \/ ~At(s, l[1], AT) THEN Fail
         ELSE LET d == DotAtomText(F, s, l[1] + 1)
                  r == IF IsOk(d) THEN d ELSE NoFoldLiteral(s, l[1] + 1)
              IN IF IsOk(r) /\ At(s, r[1], GT)
                 THEN <<OptCfws(s, r[1] + 1), [l |-> l[2], r |-> r[2]]>> ELSE Fail

MessageIds(F, s, i) ==
    LET r == Many(LAMBDA j : MessageId(F, s, j), i, <<>>) IN IF r[2] = <<>> THEN Fail ELSE r
=============================================================================
