------------------------------ MODULE Decoding ------------------------------
(* Content transfer encodings (RFC 2045, section 6), their header variants   *)
(* (RFC 2047) and percent encoding (RFC 2231), each as a machine that reads  *)
(* one byte per step.                                                        *)
EXTENDS Bytes, SequencesExt

(* ------------------------------- base64 --------------------------------- *)
(* ph: how many symbols of the current group have been read (0..3), acc:     *)
(* the symbols, pad: the third was padding; out: the bytes decoded so far.   *)
B64Alphabet == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64Value == Eager([c \in Byte |-> IF \E k \in 1..64 : B64Alphabet[k] = c
                            THEN (CHOOSE k \in 1..64 : B64Alphabet[k] = c) - 1
                            ELSE 64])
B64Init == [ph |-> 0, a |-> 0, b |-> 0, c |-> 0, out |-> <<>>, ok |-> TRUE]

B64Step(st, x) ==
    LET v == B64Value[x] IN
    IF ~st.ok THEN st
    ELSE CASE st.ph = 0 -> IF v < 64 THEN [st EXCEPT !.ph = 1, !.a = v] ELSE st
           [] st.ph = 1 -> IF v < 64 THEN [st EXCEPT !.ph = 2, !.b = v] ELSE st
           [] st.ph = 2 -> IF x = EQ THEN [st EXCEPT !.ph = 3, !.c = 64]
                           ELSE IF v < 64 THEN [st EXCEPT !.ph = 3, !.c = v] ELSE st
           [] st.ph = 3 ->
                IF x = EQ
                THEN [st EXCEPT !.ph = 0,
                        !.out = IF st.c = 64
                                THEN st.out \o <<(st.a * 4 + st.b \div 16) % 256>>
                                ELSE st.out \o <<(st.a * 4 + st.b \div 16) % 256,
                                                 ((st.b % 16) * 16 + st.c \div 4) % 256>>]
                ELSE IF v = 64 THEN st
                ELSE IF st.c = 64 THEN [st EXCEPT !.ok = FALSE]   \* data inside a padded group
                ELSE [st EXCEPT !.ph = 0,
                        !.out = st.out \o <<st.a * 4 + st.b \div 16,
                                            (st.b % 16) * 16 + st.c \div 4,
                                            (st.c % 4) * 64 + v>>]

(* Some(bytes) or None when the data stops inside a group *)
B64Decode(data) ==
    LET st == FoldLeft(B64Step, B64Init, data) IN
    IF st.ok /\ st.ph = 0 THEN Some(st.out) ELSE None

RECURSIVE B64Encode(_)
B64Encode(d) ==
    LET n == Len(d)
        sym(v) == B64Alphabet[v + 1]
    IN IF n = 0 THEN <<>>
       ELSE IF n = 1 THEN <<sym(d[1] \div 4), sym((d[1] % 4) * 16), EQ, EQ>>
       ELSE IF n = 2 THEN <<sym(d[1] \div 4), sym((d[1] % 4) * 16 + d[2] \div 16),
                            sym((d[2] % 16) * 4), EQ>>
       ELSE <<sym(d[1] \div 4), sym((d[1] % 4) * 16 + d[2] \div 16),
              sym((d[2] % 16) * 4 + d[3] \div 64), sym(d[3] % 64)>>
            \o B64Encode(SubSeq(d, 4, n))

(* --------------------------- quoted-printable --------------------------- *)
HexValue == Eager([c \in Byte |-> IF c \in 48..57 THEN c - 48
                            ELSE IF c \in 65..70 THEN c - 55
                            ELSE IF c \in 97..102 THEN c - 87 ELSE 16])
Replacement == <<239, 191, 189>>       \* U+FFFD in UTF-8

(* ph: "t" text, "e" behind `=`, "x" behind `=` and x, "c" behind CR,        *)
(* hdr: the Q encoding of RFC 2047                                           *)
QpInit(hdr) == [ph |-> "t", x |-> 0, out |-> <<>>, hdr |-> hdr]

QpPlain(st, c) ==
    CASE c = EQ -> [st EXCEPT !.ph = "e"]
      [] st.hdr /\ c = 95 -> [st EXCEPT !.ph = "t", !.out = Append(st.out, SP)]
      [] c \in 32..126 \/ (c = TAB /\ ~st.hdr) -> [st EXCEPT !.ph = "t", !.out = Append(st.out, c)]
      [] c = CR /\ ~st.hdr -> [st EXCEPT !.ph = "c"]
      [] OTHER -> [st EXCEPT !.ph = "t", !.out = st.out \o Replacement]

QpStep(st, c) ==
    CASE st.ph = "t" -> QpPlain(st, c)
      [] st.ph = "c" -> IF c = LF THEN [st EXCEPT !.ph = "t", !.out = st.out \o CRLF]
                        ELSE QpPlain([st EXCEPT !.out = st.out \o Replacement], c)
      [] st.ph = "e" -> [st EXCEPT !.ph = "x", !.x = c]
      [] st.ph = "x" ->
            IF st.x = CR /\ c = LF THEN [st EXCEPT !.ph = "t"]        \* soft line break
            ELSE IF HexValue[st.x] < 16 /\ HexValue[c] < 16
            THEN [st EXCEPT !.ph = "t", !.out = Append(st.out, HexValue[st.x] * 16 + HexValue[c])]
            ELSE [st EXCEPT !.ph = "t", !.out = st.out \o Replacement]

(* At the end of the data: a CR is not a line break, an incomplete escape    *)
(* stays (with the byte behind it read as text).                             *)
QpEnd(st) ==
    CASE st.ph = "t" -> st.out
      [] st.ph = "c" -> st.out \o Replacement
      [] st.ph = "e" -> Append(st.out, EQ)
      [] st.ph = "x" ->
            LET r == QpPlain([st EXCEPT !.out = Append(st.out, EQ)], st.x) IN
            CASE r.ph = "e" -> Append(r.out, EQ)
              [] r.ph = "c" -> r.out \o Replacement
              [] OTHER -> r.out

QpDecode(data) == QpEnd(FoldLeft(QpStep, QpInit(FALSE), data))
QDecode(data)  == QpEnd(FoldLeft(QpStep, QpInit(TRUE), data))

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
QpEscape(c) == <<EQ, HexDigit(c \div 16), HexDigit(c % 16)>>

(* --------------------------- percent decoding --------------------------- *)
PctStep(d, a) ==
    LET i == a[2]
        out == a[3]
    IN IF i > Len(d) THEN <<TRUE, i, out>>
       ELSE IF d[i] = PERCENT /\ i + 2 <= Len(d) /\ HexValue[d[i + 1]] < 16 /\ HexValue[d[i + 2]] < 16
       THEN <<FALSE, i + 3, Append(out, HexValue[d[i + 1]] * 16 + HexValue[d[i + 2]])>>
       ELSE <<FALSE, i + 1, Append(out, d[i])>>
PctDecode(d) == Until(LAMBDA a : PctStep(d, a), <<FALSE, 1, <<>>>>)[3]
=============================================================================
