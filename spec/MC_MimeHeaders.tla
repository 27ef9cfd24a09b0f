--------------------------- MODULE MC_MimeHeaders ----------------------------
(* Messages and parts with a choice of each MIME header: their types,        *)
(* encodings and what is made of the body.  Each choice says what it means.  *)
EXTENDS Vectors
CONSTANTS Most, EmitMost

(* class: what the entity is as a whole; cs: the charset of a text *)
Ty(str, main, sub, class, cs) == [t |-> <<L("Content-Type:" \o str)>>, ok |-> TRUE, main |-> B(main), sub |-> B(sub), class |-> class, cs |-> cs]
NoTy(lines) == [t |-> lines, ok |-> FALSE, main |-> K_text, sub |-> K_plain, class |-> "text", cs |-> "ascii"]
Types == <<
    NoTy(<<>>), Ty(" text/html; charset=utf-8", "text", "html", "text", "utf"), Ty("TEXT/Plain", "text", "plain", "unknown", ""),
    Ty(" Text/x; Charset=US-ASCII", "text", "x", "text", "ascii"), Ty(" text/x; charset=\"iso-8859-1\"", "text", "x", "text", "iso"),
    Ty(" (c) text/x (d) ; a=b ; charset=ISO-8859-1 (e)", "text", "x", "text", "iso"), Ty(" text/plain; charset=none", "text", "plain", "unknown", ""),
    Ty(" image/png; charset=utf-8", "image", "png", "unknown", ""), Ty(" x-a/b; boundary=b", "x-a", "b", "unknown", ""), Ty(" message/rfc822", "message", "rfc822", "unknown", ""),
    Ty(" application/octet-stream", "application", "octet-stream", "unknown", ""), Ty("audio/a", "audio", "a", "unknown", ""), Ty(" VIDEO/v; a*0=x; a*1=y", "video", "v", "unknown", ""),
    Ty(" texts/plain; charset=utf-8", "texts", "plain", "unknown", ""), Ty(" multipart/mixed", "multipart", "mixed", "error", ""), Ty(" MultiPart/x; BOUNDARY=none", "multipart", "x", "error", ""),
    NoTy(<<L("Content-Type: text")>>), NoTy(<<L("Content-Type: text/")>>), NoTy(<<L("Content-Type: /x")>>), NoTy(<<L("Content-Type: text /x")>>), NoTy(<<L("Content-Type: text/ x")>>),
    NoTy(<<L("Content-Type: text/x;")>>), NoTy(<<L("Content-Type: text/x; charset")>>), NoTy(<<L("Content-Type: text/x; charset=")>>), NoTy(<<L("Content-Type:")>>),
    NoTy(<<L("Content-Type: text/x y")>>), NoTy(<<L("Content-Type: text/x; charset=utf-8; p*=x")>>), NoTy(<<L("Content-Typ: text/x; charset=utf-8")>>)>>

En(str, how, name) == [t |-> <<L("Content-Transfer-Encoding:" \o str)>>, how |-> how, name |-> B(name), ok |-> TRUE]
NoEn(lines) == [t |-> lines, how |-> "as", name |-> <<>>, ok |-> FALSE]
Encs == <<
    NoEn(<<>>), En(" base64", "b", "base64"), En("Quoted-Printable", "q", "quoted-printable"), En(" 8BIT (c)", "as", "8bit"), En(" (c)7bit", "as", "7bit"), En(" binary ", "as", "binary"),
    En("BASE64", "b", "base64"), En(" x-none", "no", "x-none"), En(" base64x", "no", "base64x"), En(" quoted", "no", "quoted"),
    NoEn(<<L("Content-Transfer-Encoding: 7 bit")>>), NoEn(<<L("Content-Transfer-Encoding:")>>), NoEn(<<L("Content-Transfer-Encoding: \"base64\"")>>), NoEn(<<L("Content-Transfer-Encoding: base64;")>>)>>

Di(str, ok, file) == [t |-> <<L("Content-Disposition:" \o str)>>, ok |-> ok, file |-> file]
Disps == <<
    [t |-> <<>>, ok |-> TRUE, file |-> None], Di(" inline", TRUE, None), Di(" ATTACHMENT; FileName=\"f g\"; x=y", TRUE, Some(B("f g"))), Di(" attachment; filename=a; filename=b", TRUE, Some(B("b"))),
    Di(" foo (c); a=b", TRUE, None), Di("inline;filename*=utf-8''%C3%A9", TRUE, Some(<<233>>)), Di(" inline; filename*0=a; filename*1=b", TRUE, Some(B("ab"))),
    Di(" attachment; filename*0=a; filename=b", TRUE, Some(B("b"))), Di(" ; a=b", FALSE, None), Di("", FALSE, None), Di(" inline; a", FALSE, None), Di(" inline; filename*=a", FALSE, None), Di(" in line", FALSE, None)>>

(* identifiers, descriptions, unknown fields in a message and in a part *)
Ot(lines, ids, descs, unknown, inPart) == [t |-> lines, ids |-> ids, descs |-> descs, unknown |-> unknown, inPart |-> inPart]
Others == <<
    Ot(<<>>, 0, 0, 0, 0), Ot(<<L("MIME-Version: 1.0")>>, 0, 0, 0, 1), Ot(<<L("MIME-Version: (c) 1 (d) . 255 (e)")>>, 0, 0, 0, 1), Ot(<<L("MIME-Version: 256.0")>>, 0, 0, 1, 1), Ot(<<L("MIME-Version: 1")>>, 0, 0, 1, 1),
    Ot(<<L("MIME-Version: 1.")>>, 0, 0, 1, 1), Ot(<<L("MIME-Version: 1.0.0")>>, 0, 0, 1, 1), Ot(<<L("Content-ID: <a@b>")>>, 1, 0, 0, 0), Ot(<<L("Content-ID: a")>>, 0, 0, 1, 1), Ot(<<L("Content-Description: =?utf-8?q?a?=")>>, 0, 1, 0, 0),
    Ot(<<L("content-description:"), L("content-id:<a@b>"), L("Content-X: y")>>, 1, 1, 1, 1)>>

(* as it stands; from base64; from quoted-printable (None: not possible) *)
Bo(bytes, b, q, ascii, utf) == [t |-> bytes, b |-> b, q |-> q, ascii |-> ascii, utf |-> utf]
Bodies == <<
    Bo(B("QUJD"), Some(B("ABC")), Some(B("QUJD")), TRUE, TRUE), Bo(B("=41="), None, Some(B("A=")), TRUE, TRUE), Bo(<<>>, Some(<<>>), Some(<<>>), TRUE, TRUE),
    Bo(B("QUI"), None, Some(B("QUI")), TRUE, TRUE), Bo(B("w6k="), Some(<<195, 169>>), Some(B("w6k=")), TRUE, TRUE), Bo(B("=C3=A9"), None, Some(<<195, 169>>), TRUE, TRUE),
    Bo(<<195, 169>>, Some(<<>>), Some(Replacement \o Replacement), FALSE, TRUE), Bo(<<233>>, Some(<<>>), Some(Replacement), FALSE, FALSE)>>

Menu == <<Types, Encs, Disps, Others, Bodies>>
VARIABLES Choice, Changed
Spec == (Choice = <<>> /\ Changed = 0) /\
        [][/\ Len(Choice) < Len(Menu)
           /\ \E k \in 1..Len(Menu[Len(Choice) + 1]) :
                 /\ k > 1 => Changed < Most
                 /\ Choice' = Append(Choice, k)
                 /\ Changed' = Changed + (IF k = 1 THEN 0 ELSE 1)]_<<Choice, Changed>>
Complete == Len(Choice) = Len(Menu)
It(k) == Menu[k][Choice[k]]
Heads == Lines(It(1).t) \o Lines(It(4).t) \o Lines(It(2).t) \o Lines(It(3).t)
Back == Lines(It(3).t) \o Lines(It(2).t) \o Lines(It(4).t) \o Lines(It(1).t)

(* ------------------------------ what it means ---------------------------- *)
Decoded == CASE It(2).how = "as" -> Some(It(5).t) [] It(2).how = "b" -> It(5).b [] It(2).how = "q" -> It(5).q [] OTHER -> None
IsText8 == Decoded # None /\ Decoded[1] # <<>> /\ \E k \in 1..Len(Decoded[1]) : Decoded[1][k] > 127
Class1 == IF It(1).class # "text" THEN It(1).class
          ELSE IF It(1).cs \in {"ascii", "utf"} /\ Utf8Decode(Decoded[1]) = None THEN "error" ELSE "text"
Unknowns == (IF It(1).t # <<>> /\ ~It(1).ok THEN 1 ELSE 0) + (IF It(2).t # <<>> /\ ~It(2).ok THEN 1 ELSE 0) + (IF ~It(3).ok THEN 1 ELSE 0)

Same(e, unknown, want) ==
    /\ EKeyword(e.type).text = It(1).main /\ e.sub.t = It(1).sub
    /\ e.value.t = Decoded[1]
    /\ Len(e.id) = It(4).ids /\ Len(e.desc) = It(4).descs
    /\ (e.disp # None) = (It(3).t # <<>> /\ It(3).ok)
    /\ e.disp # None => (IF It(3).file = None THEN e.disp[1].filename = None ELSE e.disp[1].filename # None /\ e.disp[1].filename[1].t = It(3).file[1])
    /\ unknown = Unknowns + want
    /\ ParseEntity(AllOn, e).k = Class1

Whole(m) == LET r == Read(AllOn, m)
                a == FoldLeft(AsmStep, AsmInit, r.fields)
            IN [r |-> r, a |-> a, e |-> Assemble(AllOn, a, r.body)]
Messages == Complete =>
    \A h \in {Heads, Back} :
        LET o == Whole(Required \o h \o CRLF \o It(5).t) IN
        /\ o.r.ok
        /\ o.e.ok = (Decoded # None)
        /\ o.e.ok => Same(o.e.entity[1], Len(o.a.unknown), It(4).unknown)
(* a part: MIME-Version is unknown there, and so is every other field *)
PartsToo == Complete =>
    LET d == Heads \o CRLF \o It(5).t
        e == Part(AllOn, d, 1)
    IN /\ (e # None) = (Decoded # None)
       /\ e # None => Same(e[1], Len(e[1].add), It(4).inPart)

Rest == Heads \o CRLF \o It(5).t
Multi == L("Content-Type: multipart/mixed; boundary=b_") \o CRLF \o L("--b_") \o Rest \o CRLF \o L("--b_") \o CRLF \o CRLF \o B("--b_--")
Twice == Required \o Heads \o Back \o CRLF \o It(5).t
Emit == (Complete /\ Changed <= EmitMost) =>
    LET n == (Choice[1] + Choice[2] + Choice[3] + Choice[4] + Choice[5]) % 3 IN
    /\ EmitMessage(Required \o Rest)
    /\ IF n = 0 THEN EmitMessage(Twice) ELSE EmitMessage(Required \o Multi)
=============================================================================
