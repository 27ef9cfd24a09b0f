-------------------------------- MODULE Mime ---------------------------------
(* The MIME header fields (RFC 2045, RFC 2183) and their parameters with     *)
(* continuations and character sets (RFC 2231).                              *)
EXTENDS Addresses, DateTime

(* keywords, in lower case *)
K_text == B("text")
K_plain == B("plain")
K_charset == B("charset")
K_usascii == B("us-ascii")
K_boundary == B("boundary")
K_filename == B("filename")
DateParams == [creation |-> B("creation-date"), modification |-> B("modification-date"),
               read |-> B("read-date")]
MainTypes == {K_text, B("multipart"), B("application"), B("image"), B("video"), B("audio"), B("message")}
K_multipart == B("multipart")
Dispositions == {B("inline"), B("attachment")}
Encodings == {B("7bit"), B("8bit"), B("binary"), B("quoted-printable"), B("base64")}
K_base64 == B("base64")
K_qp == B("quoted-printable")
K_7bit == B("7bit")

(* a token in lower case *)
LowerToken(s, i) ==
    LET r == Take1(s, i, IsToken) IN IF IsOk(r) THEN <<r[1], LowerText(r[2])>> ELSE Fail

(* A name out of a list is reported as such; an unknown one with its text.   *)
Keyword(s, i, known) ==
    LET r == LowerToken(s, i) IN
    IF ~IsOk(r) THEN Fail
    ELSE <<r[1], [known |-> r[2].t \in known, text |-> r[2]]>>

(* ----------------------------- MIME-Version ----------------------------- *)
U8(t) ==      \* the value of a sequence of digits, 256 when it exceeds a byte
    FoldLeft(LAMBDA n, c : IF n > 255 THEN 256 ELSE IF n * 10 + (c - 48) > 255 THEN 256 ELSE n * 10 + (c - 48), 0, t)

MimeVersion(s, i) ==
    LET a == OptCfws(s, i)
        b == Skip(s, a, IsDigit)
        c == OptCfws(s, b)
        d == OptCfws(s, c + 1)
        e == Skip(s, d, IsDigit)
        major == U8(SubSeq(s, a, b - 1))
        minor == U8(SubSeq(s, d, e - 1))
    IN IF b = a \/ ~At(s, c, DOT) \/ e = d \/ major > 255 \/ minor > 255 THEN Fail
       ELSE <<OptCfws(s, e), [major |-> major, minor |-> minor]>>

(* ------------------------------ parameters ------------------------------ *)
(* name ["*" section] ["*"], followed by "="; or any other token *)
ParamName(s, i) ==
    LET n == Skip(s, i, IsAttr)
        hasIdx == At(s, n, STAR) /\ DigitAt(s, n + 1)
        m == IF hasIdx THEN Skip(s, n + 1, IsDigit) ELSE n
        idx == U8(SubSeq(s, n + 1, m - 1))
        ext == At(s, m, STAR)
        e == IF ext THEN m + 1 ELSE m
        t == Take1(s, i, IsToken)
    IN IF n > i /\ (~hasIdx \/ idx < 256) /\ At(s, e, EQ)
       THEN <<e, [name |-> LowerText(Slice(s, i, n)), idx |-> IF hasIdx THEN Some(idx) ELSE None,
                  ext |-> ext]>>
       ELSE IF IsOk(t) THEN <<t[1], [name |-> LowerText(t[2]), idx |-> None, ext |-> FALSE]>>
       ELSE Fail

ParamValue(s, i) ==
    LET t == Take1(s, i, IsToken) IN IF IsOk(t) THEN t ELSE QuotedString(s, i)

(* [CFWS] ";" [CFWS], the index behind it or 0 *)
ParamStart(s, i) ==
    LET o == OptCfws(s, i) IN IF At(s, o, SEMI) THEN OptCfws(s, o + 1) ELSE 0

ParameterAt(s, o) ==        \* behind the semicolon
    LET n == ParamName(s, o) IN
    IF ~IsOk(n) \/ ~At(s, n[1], EQ) THEN Fail
    ELSE LET v == ParamValue(s, n[1] + 1) IN
         IF ~IsOk(v) THEN Fail
         ELSE <<v[1], [name |-> n[2].name, idx |-> n[2].idx, ext |-> n[2].ext, value |-> v[2]]>>
Parameter(s, i) ==
    LET o == ParamStart(s, i) IN IF o = 0 THEN Fail ELSE ParameterAt(s, o)

Params(s, i) == Many(LAMBDA j : Parameter(s, j), i, <<>>)

(* ------------------------- collecting parameters ------------------------ *)
(* A list of parameters as written becomes a set of names with values.       *)
QUOTE == 39

(* the charset, and the text behind charset'language' *)
SplitExt(t) ==
    LET a == {k \in 1..Len(t) : t[k] = QUOTE} IN
    IF Cardinality(a) < 2 THEN None
    ELSE LET x == CHOOSE k \in a : \A m \in a : k <= m
             y == CHOOSE k \in a \ {x} : \A m \in a \ {x} : k <= m
         IN Some([charset |-> Lower(SubSeq(t, 1, x - 1)), rest |-> SubSeq(t, y + 1, Len(t))])

(* None when the data is not valid in the charset; data in a charset that is *)
(* not supported stays as it is written                                      *)
DecodeExt(charset, t) ==
    IF ~KnownCharset(charset) THEN Some(t) ELSE CharsetDecode(charset, PctDecode(t))

Section(p) == IF p.idx # None THEN p.idx[1] ELSE 0
IsComplex(p) == p.idx # None \/ p.ext

(* section number -> the last parameter of the list that has it, 0 if none *)
NoSection == Eager([k \in Byte |-> 0])
LastOf(list) == FoldLeft(LAMBDA f, n : [f EXCEPT ![Section(list[n])] = n], NoSection,
                         Tup([n \in 1..Len(list) |-> n]))

(* Appends the sections from k on.  cs is None when the first section was    *)
(* not extended.  The result is None when a section cannot be decoded.       *)
RECURSIVE JoinSections(_, _, _, _, _)
JoinSections(list, last, k, cs, out) ==
    IF k > 255 THEN Some(out)
    ELSE IF last[k] = 0 THEN Some(out)
    ELSE LET p == list[last[k]] IN
         IF p.ext /\ cs # None
         THEN LET d == DecodeExt(cs[1], p.value.t) IN
              IF d = None THEN None ELSE JoinSections(list, last, k + 1, cs, Own(out.t \o d[1]))
         ELSE JoinSections(list, last, k + 1, cs,
                 IF cs # None THEN Own(out.t \o p.value.t) ELSE Cat(out, p.value))

(* list: the sections of one name, with a section 0 *)
JoinParam(list) ==
    LET last == LastOf(list)
        z == list[last[0]]
    IN
    IF ~z.ext THEN JoinSections(list, last, 1, None, z.value)
    ELSE LET x == SplitExt(z.value.t) IN
         IF x = None THEN None
         ELSE LET d == DecodeExt(x[1].charset, x[1].rest) IN
              IF d = None THEN None
              ELSE JoinSections(list, last, 1, Some(x[1].charset), Own(d[1]))

(* None, or Some(set of [n, v]) *)
Collect(list) ==
    LET names == {list[k].name.t : k \in 1..Len(list)}
        of(nm, complex) == SelectSeq(list, LAMBDA p : p.name.t = nm /\ IsComplex(p) = complex)
        complexOf == Eager([nm \in names |-> of(nm, TRUE)])
        plainOf == Eager([nm \in names |-> of(nm, FALSE)])
        hasZero(x) == \E n \in 1..Len(x) : Section(x[n]) = 0
        joined == Eager([nm \in {y \in names : hasZero(complexOf[y])} |-> JoinParam(complexOf[nm])])
    IN IF \E nm \in DOMAIN joined : joined[nm] = None THEN None
       ELSE Some({[n |-> IF plainOf[nm] # <<>> THEN plainOf[nm][1].name ELSE Own(nm),
                   v |-> IF nm \in DOMAIN joined THEN joined[nm][1]
                         ELSE plainOf[nm][Len(plainOf[nm])].value] :
                  nm \in {x \in names : x \in DOMAIN joined \/ plainOf[x] # <<>>}})

ParamNamed(params, name) == {p \in params : p.n.t = name}

(* ----------------------------- Content-Type ----------------------------- *)
ContentType(s, i) ==
    LET t == Keyword(s, OptCfws(s, i), MainTypes) IN
    IF ~IsOk(t) \/ ~At(s, t[1], 47) THEN Fail
    ELSE LET u == LowerToken(s, t[1] + 1) IN
         IF ~IsOk(u) THEN Fail
         ELSE LET l == Params(s, u[1])
                  p == Collect(l[2])
              IN IF p = None THEN Fail
                 ELSE <<OptCfws(s, l[1]), [type |-> t[2], sub |-> u[2], params |-> p[1]]>>

DefaultType == [type |-> [known |-> TRUE, text |-> Own(K_text)], sub |-> Own(K_plain),
                params |-> {[n |-> Own(K_charset), v |-> Own(K_usascii)]}]

TransferEncoding(s, i) ==
    LET k == Keyword(s, OptCfws(s, i), Encodings) IN
    IF IsOk(k) THEN <<OptCfws(s, k[1]), k[2]>> ELSE Fail

(* Some(bytes), None when they cannot be decoded.  The bytes are a text.     *)
DecodeBody(encoding, value) ==
    IF ~encoding.known THEN None
    ELSE IF encoding.text.t = K_base64
    THEN LET d == B64Decode(value.t) IN IF d = None THEN None ELSE Some(Own(d[1]))
    ELSE IF encoding.text.t = K_qp THEN Some(Own(QpDecode(value.t)))
    ELSE Some(value)
SevenBit == [known |-> TRUE, text |-> Own(K_7bit)]

(* -------------------------- Content-Disposition ------------------------- *)
(* st: the disposition so far, list: the other parameters *)
FilenameParam(s, o) ==
    IF ~IsAtNoCase(s, o, K_filename) \/ ~At(s, o + 8, EQ) THEN Fail
    ELSE ParamValue(s, o + 9)

DateParam(s, o, name) ==
    LET e == o + Len(name)
    IN IF ~IsAtNoCase(s, o, name) \/ ~At(s, e, EQ) \/ ~At(s, e + 1, DQUOTE) THEN Fail
       ELSE LET d == DateAndTime(s, e + 2) IN
            IF IsOk(d) /\ At(s, d[1], DQUOTE) THEN <<d[1] + 1, d[2]>> ELSE Fail

DispositionStep(s, a) ==
    LET i == a[2]
        st == a[3]
        list == a[4]
        o == ParamStart(s, i)
        f == FilenameParam(s, o)
        c == DateParam(s, o, DateParams.creation)
        m == DateParam(s, o, DateParams.modification)
        r == DateParam(s, o, DateParams.read)
        p == ParameterAt(s, o)
    IN IF o = 0 THEN <<TRUE, i, st, list>>
       ELSE IF IsOk(f) THEN <<FALSE, f[1], [st EXCEPT !.filename = Some(f[2])], list>>
       ELSE IF IsOk(c) THEN <<FALSE, c[1], [st EXCEPT !.creation = Some(c[2])], list>>
       ELSE IF IsOk(m) THEN <<FALSE, m[1], [st EXCEPT !.modification = Some(m[2])], list>>
       ELSE IF IsOk(r) THEN <<FALSE, r[1], [st EXCEPT !.read = Some(r[2])], list>>
       ELSE IF IsOk(p) THEN <<FALSE, p[1], st, Append(list, p[2])>>
       ELSE <<TRUE, i, st, list>>

ContentDisposition(s, i) ==
    LET t == Keyword(s, OptCfws(s, i), Dispositions) IN
    IF ~IsOk(t) THEN Fail
    ELSE LET r == Until(LAMBDA a : DispositionStep(s, a),
                        <<FALSE, t[1], [filename |-> None, creation |-> None,
                                        modification |-> None, read |-> None], <<>>>>)
             c == Collect(r[4])
         IN IF c = None THEN Fail
            ELSE LET star == ParamNamed(c[1], K_filename)
                     use == r[3].filename = None /\ star # {}
                 IN <<OptCfws(s, r[2]),
                      [type |-> t[2],
                       filename |-> IF use THEN Some((CHOOSE p \in star : TRUE).v) ELSE r[3].filename,
                       creation |-> r[3].creation, modification |-> r[3].modification,
                       read |-> r[3].read,
                       params |-> IF use THEN c[1] \ star ELSE c[1]]>>
=============================================================================
