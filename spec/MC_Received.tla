----------------------------- MODULE MC_Received -----------------------------
(* The tokens of a Received field: a sequence of tokens, each with what it   *)
(* means, written with separators.                                           *)
EXTENDS Vectors
CONSTANTS Depth, EmitDepth

Tk(str, k, v) == [t |-> B(str), k |-> k, v |-> v]
Menu == <<Tk("from", "word", B("from")), Tk("a.b", "domain", B("a.b")), Tk("<x@y>", "addr", [local |-> B("x"), domain |-> B("y")]),
          Tk("u@v.w", "addr", [local |-> B("u"), domain |-> B("v.w")]), Tk("[1.2]", "domain", B("1.2")), Tk("\"q r\"", "word", B("q r")),
          Tk("\"s\"@t", "addr", [local |-> B("s"), domain |-> B("t")]), Tk("c@[d e]", "addr", [local |-> B("c"), domain |-> B("de")]),
          Tk("<\"\"@h>", "addr", [local |-> <<>>, domain |-> B("h")]), Tk("with", "word", B("with"))>>
(* not tokens *)
Wrong == <<B("<>"), B("<a>"), B(","), B("a."), B(".b"), B("a..b"), B("<a@b"), B("[x"), B("\"y"), B(":")>>
(* tokens with their neighbours, perhaps *)
Loose == <<B("@"), B("a@"), B("@b")>>
Seps == <<B(" "), B("(c)"), CRLF \o <<SP>>, B(" (c) (d) "), <<>>>>

VARIABLES Line, Meant, Glued, Spoiled
vars == <<Line, Meant, Glued, Spoiled>>
Spec == Line = <<>> /\ Meant = <<>> /\ Glued = FALSE /\ Spoiled = FALSE /\ [][
    /\ Len(Meant) < Depth
    /\ \E p \in 1..Len(Seps) :
          \/ \E m \in 1..Len(Menu) :
                /\ Line' = Line \o Seps[p] \o Menu[m].t
                /\ Meant' = Append(Meant, [k |-> Menu[m].k, v |-> Menu[m].v])
                /\ Glued' = (Glued \/ (Seps[p] = <<>> /\ Line # <<>>))
                /\ UNCHANGED Spoiled
          \/ \E w \in 1..Len(Wrong) :
                /\ ~Spoiled /\ Spoiled' = TRUE
                /\ Line' = Line \o Seps[p] \o Wrong[w]
                /\ Meant' = Append(Meant, <<>>)
                /\ Glued' = (Glued \/ (Seps[p] = <<>> /\ Line # <<>>))
          \/ \E w \in 1..Len(Loose) :
                /\ Line' = Line \o Seps[p] \o Loose[w]
                /\ Meant' = Append(Meant, <<>>)
                /\ Glued' = TRUE /\ UNCHANGED Spoiled]_vars

Stamp == B("; 1 Jan 2000 00:00 +0000")
F1 == B("Received:") \o Line \o Stamp \o CRLF
Exact == ~Glued =>
    LET r == Received(AllOn, F1, 1) IN
    IF Spoiled THEN ~IsOk(r)
    ELSE IsOk(r) /\ r[1] = Len(F1) + 1 /\ [k \in 1..Len(r[2].tokens) |-> EToken(r[2].tokens[k])] = Meant
(* what is read is written again and read the same *)
Write(x) == CASE x.k = "addr" -> B("<\"") \o x.v.local \o B("\"@[") \o x.v.domain \o B("]>")
              [] x.k = "word" -> B("\"") \o x.v \o B("\"")
              [] x.k = "domain" -> B("[") \o x.v \o B("]")
Again == LET r == Received(AllOn, F1, 1)
             l == [k \in 1..Len(r[2].tokens) |-> EToken(r[2].tokens[k])]
             f == FoldLeft(LAMBDA o, x : o \o <<SP>> \o Write(x), B("Received:"), l) \o Stamp \o CRLF
             q == Received(AllOn, f, 1)
         IN IsOk(r) => IsOk(q) /\ [k \in 1..Len(q[2].tokens) |-> EToken(q[2].tokens[k])] = l

Emit == Len(Meant) > EmitDepth \/ EmitMessage(F1 \o Message(<<>>))
=============================================================================
