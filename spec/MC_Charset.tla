----------------------------- MODULE MC_Charset ------------------------------
(* Byte strings in character sets: UTF-8 against its arithmetic, the others  *)
(* against what holds of every table.                                        *)
EXTENDS Vectors
CONSTANTS Depth, EmitDepth

(* the borders of the ranges in which UTF-8 and the tables differ *)
Edges == {0, 65, 97, 122, 123, 127, 128, 143, 144, 159, 160, 161, 191, 192, 193, 194, 195, 207, 208, 223, 224, 225, 236, 237, 238, 239, 240, 241,
          243, 244, 245, 254, 255}
VARIABLES Data
Spec == Data = <<>> /\ [][Len(Data) < Depth /\ \E c \in Edges : Data' = Append(Data, c)]_Data

(* ------------------------------ UTF-8 ----------------------------------- *)
(* well-formed: the bytes are what a sequence of scalar values is written as *)
Scalar(c) == c < 55296 \/ c \in 57344..1114111
Width(c) == IF c < 128 THEN 1 ELSE IF c < 192 THEN 0 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE IF c < 248 THEN 4 ELSE 0
Number(d) == FoldLeft(LAMBDA n, c : n * 64 + (c % 64), CASE Len(d) = 1 -> d[1] [] Len(d) = 2 -> d[1] % 32 [] Len(d) = 3 -> d[1] % 16 [] OTHER -> d[1] % 8, Tail(d))
RECURSIVE Reads(_)
Reads(d) ==
    IF d = <<>> THEN Some(<<>>)
    ELSE LET w == Width(d[1]) IN
         IF w = 0 \/ w > Len(d) THEN None
         ELSE LET c == Number(SubSeq(d, 1, w))
                  more == Reads(SubSeq(d, w + 1, Len(d)))
              IN IF ~Scalar(c) \/ Utf8Of(c) # SubSeq(d, 1, w) \/ more = None THEN None ELSE Some(<<c>> \o more[1])
Utf == LET r == Utf8Decode(Data) IN
       /\ r = Reads(Data)
       /\ r # None => Utf8Encode(r[1]) = Data
       /\ \A n \in Utf8Names : CharsetDecode(n, Data) = r

(* ----------------------------- the tables -------------------------------- *)
Tables == {IsoTables[k][1] : k \in 1..Len(IsoTables)} \cup {Iso6937Name, Gb2312Name}
SingleByte == {IsoTables[k][1] : k \in 1..Len(IsoTables)}
Total == \A n \in Tables :
    LET r == CharsetDecode(n, Data) IN
    /\ r # None
    /\ \A k \in 1..Len(r[1]) : Scalar(r[1][k])
    /\ Len(r[1]) <= Len(Data)
    /\ IsAscii(Data) => r[1] = Data
(* a byte means the same everywhere *)
Additive == \A n \in SingleByte :
    CharsetDecode(n, Data)[1] = FoldLeft(LAMBDA o, k : o \o CharsetDecode(n, <<Data[k]>>)[1], <<>>, [k \in 1..Len(Data) |-> k])
(* ASCII in front is itself, whatever follows *)
AsciiFirst == \A n \in Tables : CharsetDecode(n, <<65>> \o Data)[1] = <<65>> \o CharsetDecode(n, Data)[1]
(* Two bytes make a sign of GB 2312, in the rows and cells that it has. *)
Gb == (Len(Data) = 2 /\ Data[1] > 127) => Len(CharsetDecode(Gb2312Name, Data)[1]) = 1
(* a letter and its accent make one letter *)
Accents == (Len(Data) = 2 /\ Data[1] \in 193..207) => Len(CharsetDecode(Iso6937Name, Data)[1]) = 1

All == SetToSeq(Tables \cup Utf8Names)
NameAt(k) == All[((k % Len(All)) + 1)]
Sum == FoldLeft(LAMBDA o, c : o + c, Len(Data), Data)
Cap(t) == Tup([k \in 1..Len(t) |-> IF t[k] \in 97..122 /\ k % 2 = 0 THEN t[k] - 32 ELSE t[k]])
Body(n) == Required \o B("Content-Type: text/plain; charset=") \o n \o CRLF \o CRLF \o Data
Ew(n) == B("Subject: =?") \o n \o B("?B?") \o B64Encode(Data) \o B("?=") \o CRLF
Pct(d) == FoldLeft(LAMBDA o, c : o \o <<PERCENT>> \o Tail(QpEscape(c)), <<>>, d)
Par(n) == B("Content-Type: a/b; p*=") \o n \o B("''") \o Pct(Data) \o CRLF
Emit == Len(Data) > EmitDepth \/
    IF Len(Data) <= 1 THEN \A n \in Tables \cup Utf8Names : EmitMessage(Body(n)) /\ EmitField(Ew(n)) /\ EmitField(Par(Cap(n)))
    ELSE /\ \A n \in {Iso6937Name, Gb2312Name, B("utf-8")} : EmitMessage(Body(n))
         /\ EmitMessage(Body(Cap(NameAt(Sum)))) /\ EmitField(Ew(NameAt(Sum + 5))) /\ EmitField(Par(NameAt(Sum + 11)))
=============================================================================
