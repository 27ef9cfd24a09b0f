---------------------------- MODULE MC_Multipart -----------------------------
(* Bodies of lines, split at the lines that are the boundary, and the parts  *)
(* read as entities; against definitions on the lists of lines.              *)
EXTENDS Vectors
CONSTANTS Depth, EmitDepth, Nested

(* the boundary is b; of the nested multiparts, c *)
Flat == {B(""), B("x"), B("--b"), B("--b--"), B("--bx"), B("--b--x"), B("--b-"), B("--b "), B("--B"), B("-b"), B(" --b"), B("X: y"), B("--")}
Deep == {B(""), B("x"), B("--b"), B("--b--"), B("--c"), B("--c--"), B("Content-Type: multipart/y; boundary=c")}
Menu == IF Nested THEN Deep ELSE Flat

VARIABLES Body
Spec == Body = <<>> /\ [][Len(Body) < Depth /\ \E l \in Menu : Body' = Append(Body, l)]_Body

(* lines a to z, with line breaks between them *)
Join(ls, a, z) == IF a > z THEN <<>>
                  ELSE FoldLeft(LAMBDA o, k : o \o CRLF \o ls[a + k], ls[a], [k \in 1..(z - a) |-> k])
Data(ls) == Join(ls, 1, Len(ls))

Open(bd) == B("--") \o bd
Shut(bd) == B("--") \o bd \o B("--")
LeastOf(S) == CHOOSE k \in S : \A m \in S : k <= m
(* the lines of each part, None if the multipart does not end *)
PartsOf(ls, bd) ==
    LET ends == {k \in 1..Len(ls) : ls[k] = Shut(bd)}
        e == LeastOf(ends)
        opens == {k \in 1..(e - 1) : ls[k] = Open(bd)}
        list == SetToSortSeq(opens, LAMBDA a, b : a < b)
        bound(n) == IF n < Len(list) THEN list[n + 1] ELSE e
    IN IF ends = {} THEN None
       ELSE Some([n \in 1..Len(list) |-> SubSeq(ls, list[n] + 1, bound(n) - 1)])

Splits == LET d == Data(Body)
              s == Split(d, B("b"))
              p == PartsOf(Body, B("b"))
          IN IF p = None THEN s.ph = "eof"
             ELSE /\ s.ph = "closed" /\ Len(s.parts) = Len(p[1])
                  /\ \A n \in 1..Len(s.parts) : SubSeq(d, s.parts[n][1], s.parts[n][2] - 1) = Data(p[1][n])

(* A line of a header section is a field or continues one. *)
IsHeader(l) == l = B("X: y") \/ l = B("Content-Type: multipart/y; boundary=c")
Continues(l) == l = B(" --b")
RECURSIVE HeadLines(_, _)
HeadLines(ls, k) ==
    IF k > Len(ls) THEN k - 1
    ELSE IF IsHeader(ls[k]) \/ (Continues(ls[k]) /\ k > 1 /\ (ls[k - 1] = B("X: y") \/ Continues(ls[k - 1]))) THEN HeadLines(ls, k + 1)
    ELSE k - 1
(* the expected tree of an entity: its class and parts *)
Wrong == [k |-> "error", n |-> 0, value |-> <<>>, more |-> <<>>]
RECURSIVE Tree(_, _)
Tree(ls, bd) ==
    LET p == PartsOf(ls, bd)
        one(l) ==
            LET h == HeadLines(l, 1)
                b == IF h + 1 > Len(l) THEN <<>> ELSE SubSeq(l, h + 2, Len(l))
            IN IF l = <<>> \/ l = <<<<>>>> THEN [k |-> "text", n |-> 0, value |-> <<>>, more |-> <<>>]
               ELSE IF h = Len(l) \/ l[h + 1] # <<>> THEN Wrong
               ELSE IF \E x \in 1..h : l[x] = B("Content-Type: multipart/y; boundary=c")
               THEN LET t == Tree(b, B("c")) IN
                    [k |-> "part", n |-> h, value |-> Data(b), more |-> t]
               ELSE [k |-> "text", n |-> Cardinality({x \in 1..h : l[x] = B("X: y")}), value |-> Data(b), more |-> <<>>]
        list == [n \in 1..Len(p[1]) |-> one(p[1][n])]
    IN IF p = None THEN [k |-> "error", parts |-> <<>>]
       ELSE IF Wrong \in {list[n] : n \in 1..Len(list)} THEN [k |-> "error", parts |-> <<>>]
       ELSE [k |-> "multipart", parts |-> list]

Root == [type |-> [known |-> TRUE, text |-> Own(K_multipart)], sub |-> Own(B("mixed")),
         params |-> {[n |-> Own(K_boundary), v |-> Own(B("b"))]}, value |-> Own(Data(Body)),
         desc |-> None, id |-> None, disp |-> None, add |-> <<>>]
RECURSIVE Agree(_, _)
Agree(e, t) ==       \* e: an entity, t: the expected tree
    LET x == ParseEntity(AllOn, e) IN
    /\ x.k = t.k
    /\ x.k = "multipart" =>
          /\ Len(x.parts) = Len(t.parts)
          /\ \A n \in 1..Len(x.parts) :
                LET y == x.parts[n]
                    want == t.parts[n]
                IN /\ y.value.t = want.value
                   /\ IF want.k = "part" THEN Agree(y, want.more)
                      ELSE ParseEntity(AllOn, y).k = "text" /\ Len(y.add) = want.n
Trees == Agree(Root, Tree(Body, B("b")))

Head1 == L("Content-Type: multipart/mixed; boundary=b")
Emit == Len(Body) > EmitDepth \/
    EmitMessage(Required \o Head1 \o CRLF \o Data(Body) \o (IF (Len(Data(Body)) + Len(Body)) % 3 = 0 THEN CRLF ELSE <<>>))
=============================================================================
