------------------------------- MODULE Values --------------------------------
(* The life of the values of one message.  A value has its contents from the *)
(* beginning: clones and owned copies have the same, two values of a kind    *)
(* are equal if and only if their contents are, and a copy that owns its     *)
(* contents keeps them when the memory of the message is used for something  *)
(* else.                                                                     *)
(*                                                                           *)
(* Events (values are numbered in the order in which they come into being):  *)
(*   new        k: the kind of the value, c: its contents                    *)
(*   clone, own v: the value that is copied, c: the contents of the copy     *)
(*   equal      v, w: two values, r: whether v = w, n: whether v # w         *)
(*   look       v: a value, c: the contents it has now                       *)
(*   composite  v: a content type, r: whether it has parts inside            *)
(*   overwrite  the memory of the message is overwritten                     *)
EXTENDS Naturals, Sequences

(* values: kind, contents, whether the value is independent of the memory *)
ValuesInit == [values |-> <<>>, memory |-> "kept"]

Composite == {<<109, 101, 115, 115, 97, 103, 101>>, <<109, 117, 108, 116, 105, 112, 97, 114, 116>>}
HasParts(t) == t.known /\ t.text.t \in Composite

IsInside(x, y) == \E k \in 0..(Len(y) - Len(x)) : SubSeq(y, k + 1, k + Len(x)) = x
(* an error says what it is about *)
Says(kind, c) == kind = "error" => IF c.k \in {"dup", "missing"} THEN IsInside(c.name, c.shown) ELSE c.shown = c.name

Readable(st, v) == st.values[v].owned \/ st.memory = "kept"
Has(st, v, c) == Readable(st, v) /\ c = st.values[v].c

Fits(st, e) ==
    CASE e.e = "new" -> st.memory = "kept" /\ Says(e.k, e.c)
      [] e.e \in {"clone", "own", "look"} -> Has(st, e.v, e.c)
      [] e.e = "equal" -> /\ st.values[e.v].k = st.values[e.w].k
                          /\ e.r = (st.values[e.v].c = st.values[e.w].c) /\ e.n = ~e.r
      [] e.e = "composite" -> e.r = HasParts(st.values[e.v].c)
      [] e.e = "overwrite" -> st.memory = "kept"

Effect(st, e) ==
    CASE e.e = "new" -> [st EXCEPT !.values = Append(@, [k |-> e.k, c |-> e.c, owned |-> FALSE])]
      [] e.e = "clone" -> [st EXCEPT !.values = Append(@, @[e.v])]
      [] e.e = "own" -> [st EXCEPT !.values = Append(@, [@[e.v] EXCEPT !.owned = TRUE])]
      [] e.e = "overwrite" -> [st EXCEPT !.memory = "overwritten"]
      [] OTHER -> st
=============================================================================
