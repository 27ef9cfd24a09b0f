----------------------------- MODULE Whitespace -----------------------------
(* Folding white space and comments (RFC 5322, section 3.2.2)                *)
EXTENDS Bytes

(* FWS = ([*WSP CRLF] 1*WSP); its text is the white space without the CRLF.  *)
Fws(s, i) ==
    LET j == Skip(s, i, IsWsp) IN
    IF IsAt(s, j, CRLF)
    THEN LET k == Skip(s, j + 2, IsWsp) IN
         IF k > j + 2 THEN <<k, Cat(Slice(s, i, j), Slice(s, j + 2, k))>> ELSE Fail
    ELSE IF j > i THEN <<j, Slice(s, i, j)>> ELSE Fail

FwsEnd(s, i) ==
    LET j == Skip(s, i, IsWsp) IN
    IF IsAt(s, j, CRLF)
    THEN LET k == Skip(s, j + 2, IsWsp) IN IF k > j + 2 THEN k ELSE 0
    ELSE IF j > i THEN j ELSE 0

OptFws(s, i) == LET j == FwsEnd(s, i) IN IF j = 0 THEN i ELSE j

(* ------------------------- the comment machine -------------------------- *)
(* A comment is read byte by byte by a machine with a depth counter:         *)
(*   "t"  in the text of a comment        "b"  behind a backslash            *)
(*   "w"  in white space, may fold        "r"  behind the CR of a fold       *)
(*   "n"  behind the CRLF of a fold       "v"  in the white space of a fold  *)
(*   "end" the outermost comment closed   "bad" not a comment                *)
CommentInit == [ph |-> "t", d |-> 1]

TextStep(c, st) ==
    CASE IsWsp[c]   -> [st EXCEPT !.ph = "w"]
      [] IsCtext[c] -> [st EXCEPT !.ph = "t"]
      [] c = LPAR   -> [ph |-> "t", d |-> st.d + 1]
      [] c = RPAR   -> [ph |-> IF st.d = 1 THEN "end" ELSE "t", d |-> st.d - 1]
      [] c = BSL    -> [st EXCEPT !.ph = "b"]
      [] c = CR     -> [st EXCEPT !.ph = "r"]
      [] OTHER      -> [st EXCEPT !.ph = "bad"]

CommentStep(c, st) ==
    CASE st.ph \in {"t", "w"} -> TextStep(c, st)
      [] st.ph = "b" -> [st EXCEPT !.ph = IF IsVchar[c] \/ IsWsp[c] THEN "t" ELSE "bad"]
      [] st.ph = "r" -> [st EXCEPT !.ph = IF c = LF THEN "n" ELSE "bad"]
      [] st.ph = "n" -> [st EXCEPT !.ph = IF IsWsp[c] THEN "v" ELSE "bad"]
      [] st.ph = "v" -> IF IsWsp[c] THEN st
                        ELSE IF c = CR THEN [st EXCEPT !.ph = "bad"]
                        ELSE TextStep(c, st)
      [] OTHER -> st

CommentRun(s, i, st) ==
    LET r == Until(LAMBDA a : IF a[2] > Len(s) THEN <<TRUE, 0, a[3]>>
                              ELSE LET n == CommentStep(s[a[2]], a[3]) IN
                                   CASE n.ph = "end" -> <<TRUE, a[2] + 1, n>>
                                     [] n.ph = "bad" -> <<TRUE, 0, n>>
                                     [] OTHER -> <<FALSE, a[2] + 1, n>>,
                   <<FALSE, i, st>>)
    IN r[2]

(* the index behind the comment at i, 0 if there is none *)
CommentEnd(s, i) == IF At(s, i, LPAR) THEN CommentRun(s, i + 1, CommentInit) ELSE 0

(* --------------------------------- CFWS --------------------------------- *)
(* FWS, or white space in front of a CRLF that does not fold: the end of a   *)
(* header line.                                                              *)
LineWs(s, i) ==
    LET j == FwsEnd(s, i) IN
    IF j # 0 THEN j
    ELSE LET k == Skip(s, i, IsWsp) IN IF k > i THEN k ELSE 0

OptLineWs(s, i) == LET j == LineWs(s, i) IN IF j = 0 THEN i ELSE j

(* Comments(s, i): behind *([FWS] comment) *)
Comments(s, i) ==
    LET r == Until(LAMBDA a : LET c == CommentEnd(s, OptFws(s, a[2])) IN
                              IF c = 0 THEN <<TRUE, a[2]>> ELSE <<FALSE, c>>,
                   <<FALSE, i>>)
    IN r[2]

Cfws(s, i) ==
    LET c == Comments(s, i) IN
    IF c > i THEN OptLineWs(s, c) ELSE LineWs(s, i)

OptCfws(s, i) ==
    IF i > Len(s) \/ s[i] \notin {SP, TAB, CR, LPAR} THEN i
    ELSE LET j == Cfws(s, i) IN IF j = 0 THEN i ELSE j
=============================================================================
