------------------------------ MODULE Entities -------------------------------
(* The MIME tree: an entity is a text, a multipart with parts, or opaque     *)
(* (RFC 2046).                                                               *)
EXTENDS Message

(* -------------------------- splitting a multipart ----------------------- *)
(* The data is read line by line.  A line that is `--boundary` opens a part, *)
(* a line that is `--boundary--` ends the multipart: what follows is the     *)
(* epilogue.  The line break in front of such a line belongs to it.          *)
(*   pos:   the start of the current line                                    *)
(*   start: the start of the current part, 0 in the preamble                 *)
(*   parts: the finished parts, as <<first index, index behind>>             *)
(*   ph:    "open", "closed", "eof" (the data ended before the closing line) *)
DASHES == B("--")
SplitInit == [pos |-> 1, start |-> 0, parts |-> <<>>, ph |-> "open"]

IsNotCr == Class(Byte \ {CR})
NextLine(s, i) ==              \* behind the next CRLF, 0 if there is none
    LET run(a) == LET j == Skip(s, a[2], IsNotCr) IN
                  IF j >= Len(s) THEN <<TRUE, 0>>
                  ELSE IF s[j + 1] = LF THEN <<TRUE, j + 2>> ELSE <<FALSE, j + 1>>
    IN Until(run, <<FALSE, i>>)[2]

IsDelimiter(s, bd, i) == IsAt(s, i, DASHES) /\ IsAt(s, i + 2, bd) /\ IsAt(s, i + 2 + Len(bd), CRLF)
IsClosing(s, bd, i) ==
    LET e == i + 2 + Len(bd) IN
    IsAt(s, i, DASHES) /\ IsAt(s, i + 2, bd) /\ IsAt(s, e, DASHES)
    /\ (e + 1 = Len(s) \/ IsAt(s, e + 2, CRLF))

EndPart(st) ==
    IF st.start = 0 THEN st.parts
    ELSE Append(st.parts, <<st.start, IF st.pos - 2 < st.start THEN st.start ELSE st.pos - 2>>)

SplitStep(s, bd, st) ==
    LET i == st.pos IN
    IF IsClosing(s, bd, i) THEN [st EXCEPT !.parts = EndPart(st), !.ph = "closed"]
    ELSE IF IsDelimiter(s, bd, i)
    THEN LET n == i + Len(bd) + 4 IN
         [st EXCEPT !.parts = EndPart(st), !.start = n, !.pos = n]
    ELSE LET n == NextLine(s, i) IN
         IF n = 0 THEN [st EXCEPT !.ph = "eof"] ELSE [st EXCEPT !.pos = n]

Split(s, bd) == Until(LAMBDA a : LET n == SplitStep(s, bd, a[2]) IN <<n.ph # "open", n>>,
                      <<FALSE, SplitInit>>)[2]

(* ------------------------------ one part -------------------------------- *)
PartKinds == {"encoding", "contenttype", "contentid", "description", "disposition"}
PartInit == [once |-> [k \in PartKinds |-> None], add |-> <<>>]
PartField(a, f) ==        \* the last one counts
    IF f.k = "unknown" THEN [a EXCEPT !.add = Append(a.add, [n |-> f.name, v |-> f.v])]
    ELSE [a EXCEPT !.once[f.k] = Some(f.v)]

PartFields(F, s, i) ==
    LET run(a) == LET f == Field(F, PartKinds, s, a[2]) IN
                  IF IsOk(f) THEN <<FALSE, f[1], PartField(a[3], f[2])>> ELSE <<TRUE, a[2], a[3]>>
        r == Until(run, <<FALSE, i, PartInit>>)
    IN <<r[2], r[3]>>

(* The part s[i .. Len(s)]: None, or Some(entity) *)
Part(F, s, i) ==
    LET r == PartFields(F, s, i)
        a == r[2].once
        hasBody == IsAt(s, r[1], CRLF)
        value == Slice(s, IF hasBody THEN r[1] + 2 ELSE r[1], Len(s) + 1)
        dec == DecodeBody(IF a.encoding = None THEN SevenBit ELSE a.encoding[1], value)
        type == IF a.contenttype = None THEN DefaultType ELSE a.contenttype[1]
    IN IF (r[1] <= Len(s) /\ ~hasBody) \/ dec = None THEN None
       ELSE Some([type |-> type.type, sub |-> type.sub, params |-> type.params, value |-> dec[1],
                  desc |-> a.description, id |-> a.contentid, disp |-> a.disposition,
                  add |-> r[2].add])

(* ------------------------------ an entity ------------------------------- *)
IsType(e, name) == e.type.known /\ e.type.text.t = name
ParamOf(e, name) == LET p == ParamNamed(e.params, name) IN
                    IF p = {} THEN None ELSE Some((CHOOSE x \in p : TRUE).v)

EntityError == [k |-> "error"]
Multipart(F, e) ==
    LET bd == ParamOf(e, K_boundary)
        sp == Split(e.value.t, Utf8Encode(bd[1].t))
        part(k) == Part(F, SubSeq(e.value.t, 1, sp.parts[k][2] - 1), sp.parts[k][1])
        parts == [k \in 1..Len(sp.parts) |-> part(k)]
    IN IF bd = None THEN EntityError
       ELSE IF sp.ph # "closed" THEN EntityError
       ELSE IF \E k \in 1..Len(parts) : parts[k] = None THEN EntityError
       ELSE [k |-> "multipart", sub |-> e.sub, parts |-> [k \in 1..Len(parts) |-> parts[k][1]]]

Text(e) ==
    LET cs == ParamOf(e, K_charset)
        name == Lower(cs[1].t)
        d == CharsetDecode(name, e.value.t)
    IN IF cs = None THEN [k |-> "unknown"]
       ELSE IF ~KnownCharset(name) THEN [k |-> "unknown"]
       ELSE IF d = None THEN EntityError
       ELSE [k |-> "text", sub |-> e.sub,
             text |-> [t |-> d[1], b |-> IF name \in Utf8Names /\ d[1] # <<>> THEN 1 ELSE 0]]

ParseEntity(F, e) ==
    IF IsType(e, K_multipart) THEN Multipart(F, e)
    ELSE IF IsType(e, K_text) THEN Text(e)
    ELSE [k |-> "unknown"]
=============================================================================
