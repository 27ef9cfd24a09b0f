------------------------------- MODULE Charset -------------------------------
(* The character sets that the parser decodes to Unicode.                    *)
EXTENDS Bytes, CharsetTables, SequencesExt

Unassigned == 65533                         \* U+FFFD
OrBad(c) == IF c = 0 THEN Unassigned ELSE c

IsAscii(d) == \A k \in 1..Len(d) : d[k] < 128

(* -------------------------------- UTF-8 --------------------------------- *)
(* The decoding machine: need continuation bytes are missing, the next one   *)
(* has to be in lo..hi, cp is the code point so far.                         *)
Utf8Init == [need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, out |-> <<>>, ok |-> TRUE]

Utf8Lead(st, c) ==
    CASE c < 128        -> [st EXCEPT !.out = Append(st.out, c)]
      [] c \in 194..223 -> [st EXCEPT !.need = 1, !.cp = c - 192, !.lo = 128, !.hi = 191]
      [] c = 224        -> [st EXCEPT !.need = 2, !.cp = 0, !.lo = 160, !.hi = 191]
      [] c = 237        -> [st EXCEPT !.need = 2, !.cp = 13, !.lo = 128, !.hi = 159]
      [] c \in 225..239 /\ c # 237 -> [st EXCEPT !.need = 2, !.cp = c - 224, !.lo = 128, !.hi = 191]
      [] c = 240        -> [st EXCEPT !.need = 3, !.cp = 0, !.lo = 144, !.hi = 191]
      [] c \in 241..243 -> [st EXCEPT !.need = 3, !.cp = c - 240, !.lo = 128, !.hi = 191]
      [] c = 244        -> [st EXCEPT !.need = 3, !.cp = 4, !.lo = 128, !.hi = 143]
      [] OTHER          -> [st EXCEPT !.ok = FALSE]

Utf8Step(st, c) ==
    IF ~st.ok THEN st
    ELSE IF st.need = 0 THEN Utf8Lead(st, c)
    ELSE IF c < st.lo \/ c > st.hi THEN [st EXCEPT !.ok = FALSE]
    ELSE LET cp == st.cp * 64 + (c - 128) IN
         IF st.need = 1
         THEN [st EXCEPT !.need = 0, !.cp = 0, !.out = Append(st.out, cp)]
         ELSE [st EXCEPT !.need = st.need - 1, !.cp = cp, !.lo = 128, !.hi = 191]

Utf8Decode(d) ==
    IF IsAscii(d) THEN Some(d)
    ELSE LET st == FoldLeft(Utf8Step, Utf8Init, d) IN
         IF st.ok /\ st.need = 0 THEN Some(st.out) ELSE None

Utf8Of(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Encode(t) == IF IsAscii(t) THEN t
                 ELSE FoldLeft(LAMBDA out, c : out \o Utf8Of(c), <<>>, t)

(* ------------------------------- ISO 8859 ------------------------------- *)
(* The C1 controls 80..9F are dropped.                                       *)
IsoStep(T, out, c) ==
    IF c < 128 THEN Append(out, c)
    ELSE IF c < 160 THEN out
    ELSE Append(out, OrBad(T[c - 159]))
IsoDecode(T, d) == IF IsAscii(d) THEN d
                   ELSE FoldLeft(LAMBDA out, c : IsoStep(T, out, c), <<>>, d)

(* ------------------------------- ISO 6937 ------------------------------- *)
(* C1..CF are the first bytes of accented letters.                           *)
(* hi: the first byte that waits for the second one, 0 if there is none      *)
PairInit == [hi |-> 0, out |-> <<>>]
PairEnd(st) == IF st.hi = 0 THEN st.out ELSE Append(st.out, Unassigned)

Iso6937Step(st, c) ==
    LET put(x) == [hi |-> 0, out |-> Append(st.out, x)] IN
    IF st.hi # 0
    THEN put(IF c \in 65..122 THEN OrBad(T_iso_6937_pairs[st.hi - 192][c - 64]) ELSE Unassigned)
    ELSE IF c < 128 THEN put(c)
    ELSE IF c \in 193..207 THEN [st EXCEPT !.hi = c]
    ELSE put(IF c < 160 THEN Unassigned ELSE OrBad(T_iso_6937[c - 159]))
Iso6937Decode(d) == PairEnd(FoldLeft(Iso6937Step, PairInit, d))

(* -------------------------------- GB 2312 ------------------------------- *)
(* Deviation of the textcode crate: the second byte 7F or FF, which is not   *)
(* in the table, reads the first cell of the next row.                       *)
GbPair(hi, lo) ==
    LET h == IF lo % 128 = 127 THEN (hi % 128) + 1 ELSE hi % 128
        l == IF lo % 128 = 127 THEN 33 ELSE lo % 128
    IN IF hi % 128 < 33 THEN Unassigned
       ELSE IF h < 33 \/ h > 126 \/ l < 33 \/ l > 126 THEN Unassigned
       ELSE LET row == T_gb2312[h - 32] IN
            IF row = <<>> THEN Unassigned ELSE OrBad(row[l - 32])

GbStep(st, c) ==
    IF st.hi # 0 THEN [hi |-> 0, out |-> Append(st.out, GbPair(st.hi, c))]
    ELSE IF c < 128 THEN [hi |-> 0, out |-> Append(st.out, c)]
    ELSE [st EXCEPT !.hi = c]
GbDecode(d) == PairEnd(FoldLeft(GbStep, PairInit, d))

(* ----------------------------- the dispatch ----------------------------- *)
IsoTables == <<
    <<B("iso-8859-1"), T_iso_8859_1>>,   <<B("iso-8859-2"), T_iso_8859_2>>,
    <<B("iso-8859-3"), T_iso_8859_3>>,   <<B("iso-8859-4"), T_iso_8859_4>>,
    <<B("iso-8859-5"), T_iso_8859_5>>,   <<B("iso-8859-6"), T_iso_8859_6>>,
    <<B("iso-8859-7"), T_iso_8859_7>>,   <<B("iso-8859-8"), T_iso_8859_8>>,
    <<B("iso-8859-9"), T_iso_8859_9>>,   <<B("iso-8859-10"), T_iso_8859_10>>,
    <<B("iso-8859-11"), T_iso_8859_11>>, <<B("iso-8859-13"), T_iso_8859_13>>,
    <<B("iso-8859-14"), T_iso_8859_14>>, <<B("iso-8859-15"), T_iso_8859_15>>,
    <<B("iso-8859-16"), T_iso_8859_16>> >>
Utf8Names == {B("utf-8"), B("us-ascii")}
Iso6937Name == B("iso-6937")
Gb2312Name == B("gb2312")
IsoIndex(name) == {k \in 1..Len(IsoTables) : IsoTables[k][1] = name}

(* name: the bytes of the lower case name *)
KnownCharset(name) == name \in Utf8Names \/ name = Iso6937Name \/ name = Gb2312Name
                      \/ IsoIndex(name) # {}

(* Some(code points), or None when the data is not valid in the charset *)
CharsetDecode(name, d) ==
    IF name \in Utf8Names THEN Utf8Decode(d)
    ELSE IF name = Iso6937Name THEN Some(Iso6937Decode(d))
    ELSE IF name = Gb2312Name THEN Some(GbDecode(d))
    ELSE Some(IsoDecode(IsoTables[CHOOSE k \in IsoIndex(name) : TRUE][2], d))
=============================================================================
