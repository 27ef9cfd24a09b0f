------------------------------- MODULE Strings -------------------------------
(* All texts that are concatenations of at most a number of tokens           *)
EXTENDS Vectors

VARIABLES Str, Size
strings == <<Str, Size>>

Empty == Str = <<>> /\ Size = 0
Grow(tokens, bound) == /\ Size < bound
                       /\ \E t \in tokens : Str' = Str \o t
                       /\ Size' = Size + 1
=============================================================================
