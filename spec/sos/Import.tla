------------------------------- MODULE Import -------------------------------
(* A SciPy coefficient array, read row by row: b0 b1 b2 a0 a1 a2 per section. *)
EXTENDS Sos
Fits(order, flat) == Len(flat) = 6 * order
Import(order, flat) == [i \in 1..order |-> SubSeq(flat, 6 * i - 5, 6 * i)]
AtRest(order) == [i \in 1..order |-> <<Zero, Zero>>]
=============================================================================
