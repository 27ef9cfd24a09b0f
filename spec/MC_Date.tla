------------------------------- MODULE MC_Date -------------------------------
(* Dates that differ in at most Most components from a plain one.  Each      *)
(* alternative says whether it is part of a date and which value it has.     *)
EXTENDS Vectors
CONSTANTS Most, EmitMost

G(str, val) == [t |-> B(str), good |-> TRUE, val |-> val]
W(str) == [t |-> B(str), good |-> FALSE, val |-> <<>>]
R(bytes, good) == [t |-> bytes, good |-> good, val |-> <<>>]
Sep == <<G(" ", <<>>), R(<<TAB>>, TRUE), R(CRLF \o B(" "), TRUE), R(B("  ") \o CRLF \o <<TAB>>, TRUE), W(""), W("(c)"), W("-"), R(CRLF, FALSE), W(" (c) ")>>
Names == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Month(k) == G(Names[k], <<k>>)
NamesOfDays == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>

Parts == <<
  (* 1 day of week *)
  <<G("Sat, ", <<6>>)>> \o [k \in 1..7 |-> G(NamesOfDays[k] \o ",", <<k>>)] \o
     <<G("", <<>>), G(" ", <<>>), G("SUN, ", <<7>>), G("tuE, ", <<2>>), R(CRLF \o B(" "), TRUE),
       W("Sat "), W("Sat , "), W("Saturday, "), W("Foo, "), W(", "), W("Sa, "), W("(c) ")>>,
  (* 2 day *)
  <<G("1", <<1>>), G("01", <<1>>), G("9", <<9>>), G("10", <<10>>), G("29", <<29>>), G("30", <<30>>), G("31", <<31>>), G("0", <<0>>), G("00", <<0>>),
    W("32"), W("40"), W("99"), W("001"), W("-1"), W("a")>>,
  Sep,
  (* 4 month *)
  [k \in 1..12 |-> Month(k)] \o <<G("jan", <<1>>), G("FEB", <<2>>), G("mAY", <<5>>), W("Janu"), W("Foo"), W("Ja"), W("1"), W("")>>,
  Sep,
  (* 6 year *)
  <<G("2000", <<2, 0, 0, 0>>), G("1900", <<1, 9, 0, 0>>), G("1901", <<1, 9, 0, 1>>), G("1989", <<1, 9, 8, 9>>), G("1990", <<1, 9, 9, 0>>),
    G("9999", <<9, 9, 9, 9>>), G("10000", <<1, 0, 0, 0, 0>>), G("02000", <<2, 0, 0, 0>>), G("0002024", <<2, 0, 2, 4>>),
    G("4294967296", <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>),
    G("18446744073709551615", MaxYear), G("0018446744073709551615", MaxYear),
    W("18446744073709551616"), W("99999999999999999999"), W("184467440737095516150"), W("1899"), W("0000"), W("01899"), W("99"), W("200"), W("0099"), W("x")>>,
  Sep,
  (* 8 hour *)
  <<G("12", <<12>>), G("00", <<0>>), G("09", <<9>>), G("19", <<19>>), G("20", <<20>>), G("23", <<23>>), W("24"), W("30"), W("99"), W("1"), W("012"), W("")>>,
  <<G(":", <<>>), W(""), W(" :"), W(": "), W("::"), W(".")>>,
  (* 10 minute *)
  <<G("34", <<34>>), G("00", <<0>>), G("09", <<9>>), G("59", <<59>>), W("60"), W("99"), W("5"), W("")>>,
  (* 11 second *)
  <<G(":56", <<56>>), G("", <<0>>), G(":00", <<0>>), G(":59", <<59>>), G(":60", <<60>>), W(":61"), W(":99"), W(":5"), W(":"), W(" :10"), W(":5x")>>,
  Sep,
  (* 13 zone *)
  <<G("+0130", <<1, 1, 30>>), G("-0130", <<0, 1, 30>>), G("+0000", <<1, 0, 0>>), G("-0000", <<0, 0, 0>>), G("+9959", <<1, 99, 59>>),
    G("-2359", <<0, 23, 59>>), G("+0100 (c)", <<1, 1, 0>>), G("+1400 ", <<1, 14, 0>>),
    W("+0060"), W("-1299"), W("0000"), W("GMT"), W("+000"), W("+00000"), W("+00:00"), W("Z"), W("+ 0000"), W("+0000 x"), W("")>> >>

VARIABLES Choice, Changed
Spec == (Choice = <<>> /\ Changed = 0) /\
        [][/\ Len(Choice) < Len(Parts)
           /\ \E k \in 1..Len(Parts[Len(Choice) + 1]) :
                 /\ k > 1 => Changed < Most
                 /\ Choice' = Append(Choice, k)
                 /\ Changed' = Changed + (IF k = 1 THEN 0 ELSE 1)]_<<Choice, Changed>>
Complete == Len(Choice) = Len(Parts)
Piece(k) == Parts[k][Choice[k]]
Written == FoldLeft(LAMBDA o, k : o \o Piece(k).t, <<>>, [k \in 1..Len(Parts) |-> k])
AllGood == \A k \in 1..Len(Parts) : Piece(k).good
Meant == [dow |-> Piece(1).val, day |-> Piece(2).val[1], month |-> Piece(4).val[1], year |-> Piece(6).val,
          h |-> Piece(8).val[1], m |-> Piece(10).val[1], s |-> Piece(11).val[1],
          plus |-> Piece(13).val[1] = 1, zh |-> Piece(13).val[2], zm |-> Piece(13).val[3]]

Exact == Complete =>
    LET f == B("Date:") \o Written \o CRLF
        r == Field(AllOn, Kinds, f, 1)
        typed == IsOk(r) /\ r[1] = Len(f) + 1 /\ r[2].k = "date"
    IN /\ AllGood => typed /\ r[2].v = Meant
       (* two wrong components may happen to make a date *)
       /\ Cardinality({k \in 1..Len(Parts) : ~Piece(k).good}) = 1 => ~typed

Q(t) == <<DQUOTE>> \o t \o <<DQUOTE>>
Emit == (Complete /\ Changed <= EmitMost) =>
    LET n == (Choice[1] + Choice[2] + Choice[4] + Choice[6] + Choice[8] + Choice[13] + Len(Written)) % 4 IN
    /\ EmitField(B("Date:") \o Written \o CRLF)
    /\ CASE n = 0 -> EmitMessage(B("Received: x;") \o Written \o CRLF \o Message(<<>>))
         [] n = 1 -> EmitMessage(B("Received:;1 Jan 2000 00:00 +0000") \o CRLF \o B("Resent-Date:") \o Written \o CRLF \o Message(<<>>))
         [] n = 2 -> EmitField(B("Content-Disposition: inline; creation-date=") \o Q(Written) \o L("; modification-date=\"1 Jan 2000 00:00 +0000\""))
         [] OTHER -> EmitField(B("Content-Disposition: inline; Read-Date=") \o Q(Written) \o L("; x=y"))
=============================================================================
