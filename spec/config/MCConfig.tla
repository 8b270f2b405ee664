------------------------------ MODULE MCConfig ------------------------------
(* Agreement is reflexive and symmetric on small observations, up to the      *)
(* tolerance it rejects any other status, shape or value.                     *)
EXTENDS Config
VARIABLES x, y
Vals == {DInt(k) : k \in -1..2} \cup {<<2>>}
Lists == UNION {[1..n -> Vals] : n \in 0..2}
Obs == {[st |-> s, res |-> r, sos |-> <<>>] : s \in {"ok", "panic"}, r \in {<<>>} \cup {<<l>> : l \in Lists}}
Init == x \in Obs /\ y \in Obs
Next == UNCHANGED <<x, y>>
Exactly == Agrees(x, y, "stats", "f64", Zero) <=> x = y
=============================================================================
