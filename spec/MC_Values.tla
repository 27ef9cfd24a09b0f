------------------------------ MODULE MC_Values ------------------------------
(* Values over a small memory: a value is a piece of the memory or owns a    *)
(* copy of it.  What such an implementation reports fits the specification,  *)
(* whatever it does in whatever order, and a wrong report does not.          *)
EXTENDS Values, FiniteSets
CONSTANTS Size, Most

Cell == {0, 1}
Piece == {<<a, z>> \in (1..Size) \X (1..Size) : a <= z}
Kinds == {"a", "b"}
VARIABLES Mem,      \* the memory
          Vals,     \* what the implementation has: kind, a piece or a text
          Judge,    \* the state of the specification
          Ev,       \* the last event
          Prev      \* Judge before it
vars == <<Mem, Vals, Judge, Ev, Prev>>
Nothing == [e |-> "nothing"]
Init == Mem \in [1..Size -> Cell] /\ Vals = <<>> /\ Judge = ValuesInit /\ Ev = Nothing /\ Prev = ValuesInit

Contents(x) == IF x.owned THEN x.t ELSE SubSeq(Mem, x.t[1], x.t[2])
Alive(v) == Vals[v].owned \/ Judge.memory = "kept"
Do(e) == Ev' = e /\ Prev' = Judge /\ Judge' = Effect(Judge, e)
Add(x) == Vals' = Append(Vals, x) /\ UNCHANGED Mem
Keep == UNCHANGED <<Mem, Vals>>

Take == \E p \in Piece, k \in Kinds :
    /\ Judge.memory = "kept" /\ Len(Vals) < Most
    /\ Add([k |-> k, owned |-> FALSE, t |-> p])
    /\ Do([e |-> "new", k |-> k, c |-> SubSeq(Mem, p[1], p[2])])
Clone == \E v \in 1..Len(Vals) :
    /\ Alive(v) /\ Len(Vals) < Most
    /\ Add(Vals[v])
    /\ Do([e |-> "clone", v |-> v, c |-> Contents(Vals[v])])
Own == \E v \in 1..Len(Vals) :
    /\ Alive(v) /\ Len(Vals) < Most
    /\ Add([Vals[v] EXCEPT !.owned = TRUE, !.t = Contents(Vals[v])])
    /\ Do([e |-> "own", v |-> v, c |-> Contents(Vals[v])])
Equal == \E v, w \in 1..Len(Vals) :
    /\ Alive(v) /\ Alive(w) /\ Vals[v].k = Vals[w].k
    /\ Keep
    /\ Do([e |-> "equal", v |-> v, w |-> w, r |-> Contents(Vals[v]) = Contents(Vals[w]), n |-> Contents(Vals[v]) # Contents(Vals[w])])
Look == \E v \in 1..Len(Vals) : Alive(v) /\ Keep /\ Do([e |-> "look", v |-> v, c |-> Contents(Vals[v])])
Overwrite == /\ Judge.memory = "kept"
             /\ Mem' \in [1..Size -> Cell] /\ UNCHANGED Vals
             /\ Do([e |-> "overwrite"])
Spec == Init /\ [][Take \/ Clone \/ Own \/ Equal \/ Look \/ Overwrite]_vars

(* every report of this implementation is accepted *)
Sound == Ev = Nothing \/ Fits(Prev, Ev)
(* no other one is *)
Texts == UNION {[1..n -> Cell] : n \in 1..Size}
Sharp ==
    CASE Ev.e \in {"clone", "own", "look"} -> \A x \in Texts \ {Ev.c} : ~Fits(Prev, [Ev EXCEPT !.c = x])
      [] Ev.e = "equal" -> ~Fits(Prev, [Ev EXCEPT !.r = ~@]) /\ ~Fits(Prev, [Ev EXCEPT !.n = ~@])
      [] OTHER -> TRUE
(* the specification knows the contents of everything that can be looked at *)
Agree == \A v \in 1..Len(Vals) : Alive(v) => Judge.values[v].c = Contents(Vals[v]) /\ Judge.values[v].owned = Vals[v].owned
(* equality is an equivalence that copies respect *)
Same(v, w) == Judge.values[v].c = Judge.values[w].c
Congruent == \A u, v, w \in 1..Len(Vals) : (Same(u, v) /\ Same(v, w)) => Same(w, u)
Bounded == Len(Vals) <= Most
=============================================================================
