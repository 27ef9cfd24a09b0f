------------------------------- MODULE MC_Cfws -------------------------------
(* Comments and folding white space in structured fields: every value is     *)
(* written with every choice of at most Most insertions out of Fillers at the*)
(* places where the grammar allows them; none changes the value.             *)
EXTENDS Vectors
CONSTANTS Most, EmitMost

(* A template is a kind and pieces of text; between the pieces stand slots:  *)
(* "c" CFWS is allowed, "f" FWS is allowed, "w" FWS is required (one space   *)
(* is there already), "." nothing is allowed.                                *)
P(str) == [text |-> B(str), slot |-> "c"]
X(str, slot) == [text |-> B(str), slot |-> slot]     \* the slot in front of the text
Y(text) == [text |-> text, slot |-> "."]
Templates == <<
    [k |-> "from", p |-> <<P("Bob"), P("<"), P("a.b"), P("@"), P("[1.2]"), P(">"), P(","), P("c"), P("@"), P("d.e"), P("")>>],
    [k |-> "sender", p |-> <<P("\"J D\""), P("Q"), P("<"), P("\"x\""), P("@"), P("y"), P(">"), P("")>>],
    [k |-> "to", p |-> <<P("G"), P(":"), P("a"), P("@"), P("b"), P(","), P("N"), P("<"), P("c"), P("@"), P("d"), P(">"), P(";"), P(","), P("e"), P("@"), P("f"), P("")>>],
    [k |-> "cc", p |-> <<P("G"), P(":"), P(";"), P("")>>],
    [k |-> "bcc", p |-> <<P("")>>],
    [k |-> "replyto", p |-> <<P("=?utf-8?q?x?="), P("<"), P("a"), P("@"), P("b"), P(">"), P("")>>],
    [k |-> "messageid", p |-> <<P("<a.b@c>"), P("")>>],
    [k |-> "references", p |-> <<P("<a@b>"), P("<c@[d]>"), P("<e@f>"), P("")>>],
    [k |-> "inreplyto", p |-> <<P("<a@b>"), P("")>>],
    [k |-> "contentid", p |-> <<P("<a@b>"), P("")>>],
    [k |-> "keywords", p |-> <<P("one"), P(","), P("\"two\""), P("three"), P("")>>],
    [k |-> "date", p |-> <<X("Mon", "f"), X(",", "."), X("01", "f"), X("Jan", "w"), X("2001", "w"), X("10", "w"),
                           X(":", "."), X("20:30", "."), X("+0100", "w"), P("")>>],
    [k |-> "date", p |-> <<X("1", "f"), X("dec", "w"), X("1999", "w"), X("10:20", "w"), X("-0130", "w"), P("")>>],
    [k |-> "mimeversion", p |-> <<P("1"), P("."), P("0"), P("")>>],
    [k |-> "contenttype", p |-> <<P("text/html"), P(";"), P("charset=utf-8"), P(";"), P("x=\"y\""), P("")>>],
    [k |-> "contenttype", p |-> <<P("image/png"), P("")>>],
    [k |-> "encoding", p |-> <<P("base64"), P("")>>],
    [k |-> "disposition", p |-> <<P("attachment"), P(";"), P("filename=a"), P(";"), P("x=y"), P("")>>],
    [k |-> "trace", p |-> <<P("from"), X("a.b", "W"), X("by", "W"), P("[1.2]"), P("for"), P("<"), P("c"), P("@"), P("d"), P(">"), P("\"q\""), P(";"),
                            X("1", "f"), X("Jan", "w"), X("2001", "w"), X("10:20", "w"), X("+0100", "w"), P("")>>],
    [k |-> "trace", p |-> <<X(" by a.b;1 Jan 2001 10:20:30 +0000", "."), P(""), Y(CRLF \o B("Resent-To:")), P("a"), P("@"), P("b"), P(","), P("c"), P("@"), P("d"), P(""),
                            Y(CRLF \o B("Resent-Message-ID:")), P("<x@y>"), P(""),
                            Y(CRLF \o B("Resent-Date:")), X("1", "f"), X("Jan", "w"), X("2001", "w"), X("10:20", "w"), X("+0100", "w"), P("")>>],
    [k |-> "path", p |-> <<P("<"), P("a"), P("@"), P("b"), P(">"), P(""), Y(CRLF \o B("Received:;1 Jan 2001 10:20 +0000"))>>],
    [k |-> "path", p |-> <<P("<"), P(">"), P(""), Y(CRLF \o B("Received:;1 Jan 2001 10:20 +0000"))>>]
    >>
NamesOf == [from |-> "From", sender |-> "Sender", to |-> "To", cc |-> "Cc", bcc |-> "Bcc", replyto |-> "Reply-To",
            messageid |-> "Message-ID", references |-> "References", inreplyto |-> "In-Reply-To",
            contentid |-> "Content-ID", keywords |-> "Keywords", date |-> "Date", mimeversion |-> "MIME-Version",
            contenttype |-> "Content-Type", encoding |-> "Content-Transfer-Encoding",
            disposition |-> "Content-Disposition", trace |-> "Received", path |-> "Return-Path"]

Fws1 == {B(" "), <<TAB>>, CRLF \o B(" "), <<SP>> \o CRLF \o <<TAB>>}
Fillers == Fws1 \cup
    {B("(c)"), B("()"), B(" (a(b)c) "), B("(\\)\\(\\\\)"), B("(a") \o CRLF \o B(" b)"), CRLF \o B(" (x)"),
     B("(x)") \o CRLF \o B(" "), B("(x)(y)"), B("(;,<>@.\"[:)")}

VARIABLES Which, Slots, Filled         \* the template, the filling of each slot seen so far, how many are not empty
Spec == (Which \in 1..Len(Templates) /\ Slots = <<>> /\ Filled = 0) /\
        [][/\ Len(Slots) < Len(Templates[Which].p)
           /\ UNCHANGED Which
           /\ LET kind == Templates[Which].p[Len(Slots) + 1].slot IN
              \E x \in {<<>>} \cup (IF kind \in {"c", "W"} THEN Fillers ELSE IF kind \in {"f", "w"} THEN Fws1 ELSE {}) :
                 /\ x # <<>> => Filled < Most
                 /\ Slots' = Append(Slots, x)
                 /\ Filled' = Filled + (IF x = <<>> THEN 0 ELSE 1)]_<<Which, Slots, Filled>>

Written(pieces, slots) ==
    FoldLeft(LAMBDA o, k : o \o (IF pieces[k].slot \in {"w", "W"} /\ slots[k] = <<>> THEN <<SP>> ELSE slots[k]) \o pieces[k].text,
             <<>>, [k \in 1..Len(pieces) |-> k])
Complete == Len(Slots) = Len(Templates[Which].p)
Name(w) == B(NamesOf[Templates[w].k]) \o B(":")
Canonical(w) == Name(w) \o Written(Templates[w].p, [k \in 1..Len(Templates[w].p) |-> <<>>]) \o CRLF
Variant == Name(Which) \o Written(Templates[Which].p, Slots) \o CRLF

IsTrace == Templates[Which].k \in {"trace", "path"}
Unit(s) == IF IsTrace THEN TraceBlock(AllOn, s, 1) ELSE Field(AllOn, Kinds, s, 1)

Transparent ==
    Complete =>
    LET x == Unit(Canonical(Which))
        y == Unit(Variant)
    IN /\ IsOk(x) /\ IsOk(y)
       /\ x[1] = Len(Canonical(Which)) + 1 /\ y[1] = Len(Variant) + 1
       /\ x[2].k = (IF IsTrace THEN "trace" ELSE Templates[Which].k) /\ y[2].k = x[2].k
       /\ EField(x[2]) = EField(y[2])

Emit == (Complete /\ Filled <= EmitMost) => (IF IsTrace THEN EmitMessage(Variant \o Message(<<>>)) ELSE EmitField(Variant))
=============================================================================
