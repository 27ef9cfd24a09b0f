------------------------------ MODULE DateTime -------------------------------
(* Dates (RFC 5322, section 3.3).  A year is a sequence of decimal digits    *)
(* without leading zeros, so that it is not bounded by TLC's integers.       *)
EXTENDS Whitespace

DayNames == <<B("mon"), B("tue"), B("wed"), B("thu"), B("fri"), B("sat"), B("sun")>>
MonthNames == <<B("jan"), B("feb"), B("mar"), B("apr"), B("may"), B("jun"),
                B("jul"), B("aug"), B("sep"), B("oct"), B("nov"), B("dec")>>
Named(s, i, names) == {k \in 1..Len(names) : IsAtNoCase(s, i, names[k])}

DigitAt(s, i) == i <= Len(s) /\ IsDigit[s[i]]
Num(s, i) == s[i] - 48
Num2(s, i) == Num(s, i) * 10 + Num(s, i + 1)
Two(s, i) == DigitAt(s, i) /\ DigitAt(s, i + 1)

(* [FWS] day-name "," *)
DayOfWeek(s, i) ==
    LET o == OptFws(s, i)
        d == Named(s, o, DayNames)
    IN IF d # {} /\ At(s, o + 3, COMMA) THEN <<o + 4, CHOOSE k \in d : TRUE>> ELSE Fail

RECURSIVE StripZeros(_)
StripZeros(t) == IF t # <<>> /\ t[1] = 0 THEN StripZeros(Tail(t)) ELSE t

RECURSIVE DigitsLeq(_, _)
DigitsLeq(x, y) ==      \* same length
    IF x = <<>> THEN TRUE
    ELSE IF x[1] # y[1] THEN x[1] < y[1]
    ELSE DigitsLeq(Tail(x), Tail(y))

MaxYear == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>      \* 2^64 - 1
ValidYear(y) == /\ Len(y) > 4 \/ (Len(y) = 4 /\ DigitsLeq(<<1, 9, 0, 0>>, y))
                /\ Len(y) < 20 \/ (Len(y) = 20 /\ DigitsLeq(y, MaxYear))

(* ":" second is optional; a colon without two digits is left where it is *)
Seconds(s, i) == IF At(s, i, COLON) /\ Two(s, i + 1) THEN <<i + 3, Num2(s, i + 1)>> ELSE <<i, 0>>

DateAndTime(s, i) ==
    LET w == DayOfWeek(s, i)
        d == OptFws(s, IF IsOk(w) THEN w[1] ELSE i)
    IN IF ~DigitAt(s, d) THEN Fail
       ELSE LET e   == IF Two(s, d) THEN d + 2 ELSE d + 1
                day == IF Two(s, d) THEN Num2(s, d) ELSE Num(s, d)
                m   == FwsEnd(s, e)
                mon == IF m = 0 THEN {} ELSE Named(s, m, MonthNames)
                y   == IF mon = {} THEN 0 ELSE FwsEnd(s, m + 3)
            IN IF day > 31 \/ y = 0 THEN Fail
               ELSE LET z == Skip(s, y, IsDigit)
                        year == StripZeros([k \in 1..(z - y) |-> Num(s, y + k - 1)])
                        t == FwsEnd(s, z)
                    IN IF z - y < 4 \/ ~ValidYear(year) \/ t = 0 \/ ~Two(s, t) \/ ~At(s, t + 2, COLON)
                          \/ ~Two(s, t + 3)
                       THEN Fail
                       ELSE LET h == Num2(s, t)
                                mi == Num2(s, t + 3)
                                se == Seconds(s, t + 5)
                                o == FwsEnd(s, se[1])
                            IN IF h > 23 \/ mi > 59 \/ se[2] > 60 \/ o = 0 THEN Fail
                               ELSE IF o > Len(s) \/ s[o] \notin {43, 45} \/ ~Two(s, o + 1)
                                       \/ ~Two(s, o + 3)
                               THEN Fail
                               ELSE IF Num2(s, o + 3) > 59 THEN Fail
                               ELSE <<OptCfws(s, o + 5),
                                      [dow |-> IF IsOk(w) THEN Some(w[2]) ELSE None,
                                       day |-> day, month |-> CHOOSE k \in mon : TRUE, year |-> year,
                                       h |-> h, m |-> mi, s |-> se[2],
                                       plus |-> s[o] = 43, zh |-> Num2(s, o + 1), zm |-> Num2(s, o + 3)]>>
=============================================================================
