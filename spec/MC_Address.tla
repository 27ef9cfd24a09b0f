------------------------------ MODULE MC_Address -----------------------------
(* Lists of addresses are written down and read again.                       *)
EXTENDS Vectors
CONSTANTS Most, EmitMost

A(text, value) == [w |-> text, v |-> value]              \* as written, as meant
Same(str) == A(B(str), B(str))
Locals == {Same("a"), Same("a.b-c"), A(B("\"x y\""), B("x y")), A(B("\"\""), <<>>), A(B("\"q\\\"\\\\@\""), B("q\"\\@"))}
Domains == {Same("d"), Same("d.e.f"), A(B("[1.2]"), B("1.2")), A(B("[]"), <<>>), A(B("[a 1:2(\"]"), B("a1:2(\""))}
NamesList == {<<Same("N")>>, <<Same("John"), Same("Doe")>>, <<A(B("\"J. D,\""), B("J. D,")), Same("x")>>,
              <<A(B("\"\""), <<>>)>>, <<A(B("=?utf-8?q?=C3=A9?="), <<233>>), Same("Z")>>, <<Same("=?x?="), A(B("\"<@>\""), B("<@>"))>>}
Boxes == {[name |-> n, local |-> l, domain |-> d, angle |-> TRUE] : n \in {None} \cup {Some(x) : x \in NamesList}, l \in Locals, d \in Domains}
         \cup {[name |-> None, local |-> l, domain |-> d, angle |-> FALSE] : l \in Locals, d \in Domains}
Plain1 == [name |-> None, local |-> Same("a"), domain |-> Same("d"), angle |-> FALSE]
Plain2 == [name |-> Some(<<Same("John"), Same("Doe")>>), local |-> Same("a.b-c"), domain |-> A(B("[1.2]"), B("1.2")), angle |-> TRUE]
Plain3 == [name |-> None, local |-> A(B("\"\""), <<>>), domain |-> Same("d"), angle |-> TRUE]
FewBoxes == {Plain1, Plain2, Plain3}
Groups == {[name |-> n, boxes |-> b] : n \in NamesList, b \in {<<>>} \cup {<<x>> : x \in FewBoxes} \cup {<<x, y>> : x \in FewBoxes, y \in FewBoxes}}
FewGroups == {[name |-> <<Same("N")>>, boxes |-> <<>>], [name |-> <<A(B("\"J. D,\""), B("J. D,")), Same("x")>>, boxes |-> <<Plain2, Plain1>>]}

Join(list, sep) == FoldLeft(LAMBDA o, x : IF o = <<>> THEN x ELSE o \o sep \o x, <<>>, list)
WriteName(n) == Join([k \in 1..Len(n) |-> n[k].w], B(" "))
WriteBox(m) == (IF m.name = None THEN <<>> ELSE WriteName(m.name[1]) \o B(" "))
               \o (IF m.angle THEN B("<") ELSE <<>>) \o m.local.w \o B("@") \o m.domain.w \o (IF m.angle THEN B(">") ELSE <<>>)
WriteGroup(g) == WriteName(g.name) \o B(":") \o Join([k \in 1..Len(g.boxes) |-> WriteBox(g.boxes[k])], B(",")) \o B(";")
MeantName(n) == [k \in 1..Len(n) |-> n[k].v]
MeantBox(m) == [name |-> IF m.name = None THEN None ELSE Some(MeantName(m.name[1])),
                addr |-> [local |-> m.local.v, domain |-> m.domain.v]]
IsGroup(x) == "boxes" \in DOMAIN x
Write(x) == IF IsGroup(x) THEN WriteGroup(x) ELSE WriteBox(x)
Mean(x) == IF IsGroup(x) THEN [k |-> "group", name |-> Some(MeantName(x.name)), boxes |-> [k \in 1..Len(x.boxes) |-> MeantBox(x.boxes[k])]]
           ELSE [k |-> "mailbox", name |-> None, boxes |-> <<MeantBox(x)>>]

VARIABLES Addrs
Spec == Addrs \in {<<x>> : x \in Boxes \cup Groups} /\
        [][/\ Len(Addrs) < Most
           /\ \E x \in FewBoxes \cup FewGroups : Addrs' \in {Append(Addrs, x), <<x>> \o Addrs}]_Addrs

Written == Join([k \in 1..Len(Addrs) |-> Write(Addrs[k])], B(", "))
NoGroup == \A k \in 1..Len(Addrs) : ~IsGroup(Addrs[k])
Read1(head, kinds) == Field(AllOn, kinds, B(head) \o Written \o CRLF, 1)
RoundTrip ==
    LET meant == [k \in 1..Len(Addrs) |-> Mean(Addrs[k])]
        t == Read1("To: ", Kinds)
        f == Read1("From: ", Kinds)
        s == Read1("Sender: ", Kinds)
        b == Read1("Bcc: ", Kinds)
    IN /\ IsOk(t) /\ t[2].k = "to" /\ EAddresses(t[2].v) = meant
       /\ IsOk(b) /\ b[2].k = "bcc" /\ EAddresses(b[2].v) = meant
       /\ IsOk(f) /\ (f[2].k = "from") = NoGroup
       /\ (NoGroup => EMailboxes(f[2].v) = [k \in 1..Len(Addrs) |-> MeantBox(Addrs[k])])
       /\ IsOk(s) /\ (s[2].k = "sender") = (NoGroup /\ Len(Addrs) = 1)
       /\ (s[2].k = "sender" => EMailbox(s[2].v) = MeantBox(Addrs[1]))

N == (Len(Written) + Len(Addrs)) % 6
Emit == Len(Addrs) > EmitMost \/
    (/\ EmitField(B("To: ") \o Written \o CRLF)
     /\ EmitField(B(CASE N = 0 -> "From: " [] N = 1 -> "Sender: " [] N = 2 -> "Reply-To: " [] N = 3 -> "Cc: " [] N = 4 -> "Bcc: " [] OTHER -> "From:")
                  \o Written \o CRLF)
     /\ (N = 5 => EmitMessage(B("Received:;1 Jan 2000 00:00 +0000") \o CRLF \o B("Resent-Cc:") \o Written \o CRLF \o Message(<<>>))))
=============================================================================
