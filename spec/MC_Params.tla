------------------------------ MODULE MC_Params ------------------------------
(* Lists of parameters, and what they mean by the numbers of the sections.   *)
(* Each value says what it is as it stands, as the start of an extended      *)
(* value and as a further section in a charset.                              *)
EXTENDS Vectors
CONSTANTS Depth, EmitDepth, Rich

Unknown == "?"
Bad == <<1114112>>                 \* instead of a text
(* lit: as it stands; start: <<>> or the charset and the rest decoded in it; utf, iso: as a section *)
V(t, lit, start, utf, iso) == [t |-> t, lit |-> lit, start |-> start, utf |-> utf, iso |-> iso]
Same(str) == V(B(str), B(str), <<>>, B(str), B(str))
Starts(str, cs, text, utf, iso) == V(B(str), B(str), <<cs, text>>, utf, iso)
Small == <<Same("v"), V(B("%C3%A9"), B("%C3%A9"), <<>>, <<233>>, <<195, 169>>), Starts("utf-8''x%C3%A9", "utf", <<120, 233>>, B("utf-8''x") \o <<233>>, B("utf-8''x") \o <<195, 169>>),
           Starts("ISO-8859-1'en'%E9", "iso", <<233>>, Bad, B("ISO-8859-1'en'") \o <<233>>)>>
Large == Small \o <<
    V(B("\"b c\""), B("b c"), <<>>, B("b c"), B("b c")), V(B("%C3"), B("%C3"), <<>>, Bad, <<195>>), Same("x'y"), V(B("%4a%4"), B("%4a%4"), <<>>, B("J%4"), B("J%4")),
    Starts("none''%41", Unknown, B("%41"), B("none''A"), B("none''A")),
    Starts("utf-8''%C3", "utf", Bad, Bad, B("utf-8''") \o <<195>>), Starts("''x", Unknown, B("x"), B("''x"), B("''x")),
    Starts("utf-8'a'b'c", "utf", B("b'c"), B("utf-8'a'b'c"), B("utf-8'a'b'c")),
    V(B("\"\""), <<>>, <<>>, <<>>, <<>>)>>
Values == IF Rich THEN Large ELSE Small
Names == <<B("p"), B("filename")>>
Spelled == <<B("P"), B("FileName")>>
Index == <<None, Some(0), Some(1), Some(2)>>

VARIABLES List
Spec == List = <<>> /\ [][/\ Len(List) < Depth
                          /\ \E n \in 1..2, i \in 1..4, x \in BOOLEAN, v \in 1..Len(Values) :
                                List' = Append(List, [n |-> n, i |-> Index[i], x |-> x, v |-> Values[v]])]_List

Digit(d) == <<48 + d>>
Item(p, k) == (IF k % 2 = 0 THEN B("; ") ELSE B(";(c)")) \o (IF (k + p.n) % 2 = 0 THEN Names[p.n] ELSE Spelled[p.n])
              \o (IF p.i = None THEN <<>> ELSE B("*") \o Digit(p.i[1])) \o (IF p.x THEN B("*") ELSE <<>>) \o B("=") \o p.v.t
Written == FoldLeft(LAMBDA o, k : o \o Item(List[k], k), <<>>, [k \in 1..Len(List) |-> k])

(* the sections of a name: the last one with a number counts *)
Sec(p) == IF p.i = None THEN 0 ELSE p.i[1]
Complex(p) == p.i # None \/ p.x
Of(n, c) == {k \in 1..Len(List) : List[k].n = n /\ Complex(List[k]) = c}
LastIn(S) == CHOOSE k \in S : \A m \in S : m <= k
Number(n, d) == {k \in Of(n, TRUE) : Sec(List[k]) = d}
More(p, cs) == IF ~p.x \/ cs = "" THEN p.v.lit
               ELSE CASE cs = "utf" -> p.v.utf [] cs = "iso" -> p.v.iso [] OTHER -> p.v.lit
(* the value of the name, <<>> if it has none, Bad if it is wrong *)
Meant(n) ==
    IF Number(n, 0) = {} THEN IF Of(n, FALSE) = {} THEN None ELSE Some(List[LastIn(Of(n, FALSE))].v.lit)
    ELSE LET z == List[LastIn(Number(n, 0))]
             cs == IF ~z.x THEN "" ELSE IF z.v.start = <<>> THEN "bad" ELSE z.v.start[1]
             first == IF ~z.x THEN z.v.lit ELSE IF z.v.start = <<>> THEN Bad ELSE z.v.start[2]
             one == IF Number(n, 1) = {} THEN <<>> ELSE More(List[LastIn(Number(n, 1))], cs)
             two == IF Number(n, 1) = {} \/ Number(n, 2) = {} THEN <<>> ELSE More(List[LastIn(Number(n, 2))], cs)
         IN IF Bad \in {first, one, two} THEN Some(Bad) ELSE Some(first \o one \o two)

Type(f) == Field(AllOn, Kinds, f, 1)
Sets(m1, m2) == (IF m1 = None THEN {} ELSE {[n |-> Names[1], v |-> m1[1]]}) \cup
                (IF m2 = None THEN {} ELSE {[n |-> Names[2], v |-> m2[1]]})
Exact == LET f == B("Content-Type: text/x") \o Written \o CRLF
             r == Type(f)
         IN IF Some(Bad) \in {Meant(1), Meant(2)} THEN IsOk(r) /\ r[2].k = "unknown"
            ELSE IsOk(r) /\ r[1] = Len(f) + 1 /\ r[2].k = "contenttype" /\ EParams(r[2].v.params) = Sets(Meant(1), Meant(2))
(* In a disposition the name stands for itself, plainly written it comes first. *)
Simple == {k \in Of(2, FALSE) : TRUE}
Sectioned == IF Number(2, 0) = {} THEN None ELSE Meant(2)
Files == LET f == B("Content-Disposition: attachment") \o Written \o CRLF
             r == Type(f)
         IN IF Some(Bad) \in {Meant(1), Sectioned} THEN IsOk(r) /\ r[2].k = "unknown"
            ELSE /\ IsOk(r) /\ r[1] = Len(f) + 1 /\ r[2].k = "disposition"
                 /\ IF Simple # {}
                    THEN /\ r[2].v.filename # None /\ r[2].v.filename[1].t = List[LastIn(Simple)].v.lit
                         /\ EParams(r[2].v.params) = Sets(Meant(1), Sectioned)
                    ELSE /\ (IF Sectioned = None THEN r[2].v.filename = None ELSE r[2].v.filename # None /\ r[2].v.filename[1].t = Sectioned[1])
                         /\ EParams(r[2].v.params) = Sets(Meant(1), None)
(* the order of the sections of one name does not matter *)
Sorted == (\A k, m \in 1..Len(List) : k # m => <<List[k].n, Complex(List[k]), Sec(List[k])>> # <<List[m].n, Complex(List[m]), Sec(List[m])>>) =>
    LET rev == FoldLeft(LAMBDA o, k : o \o Item(List[Len(List) + 1 - k], k), <<>>, [k \in 1..Len(List) |-> k])
        r == Type(B("Content-Type: text/x") \o Written \o CRLF)
        q == Type(B("Content-Type: text/x") \o rev \o CRLF)
    IN r[2].k = q[2].k /\ (r[2].k = "contenttype" => EParams(r[2].v.params) = EParams(q[2].v.params))

Emit == Len(List) > EmitDepth \/
    (IF (Len(Written) + Len(List)) % 2 = 0 THEN EmitField(B("Content-Type: text/x") \o Written \o CRLF)
     ELSE EmitField(B("Content-Disposition: attachment") \o Written \o CRLF))
=============================================================================
