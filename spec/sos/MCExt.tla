------------------------------- MODULE MCExt -------------------------------
(* What makes an odd extension odd, checked over every short signal.        *)
EXTENDS Ext, FiniteSets
V == { DInt(k) : k \in -1..2 }
VARIABLES x, n, phase
Init == x \in UNION { [1..m -> V] : m \in 1..5 } /\ n = 0 /\ phase = "pick"
Next == phase = "pick" /\ phase' = "ext" /\ n' \in 0..(Len(x) - 1) /\ UNCHANGED x
Y == OddExt(x, n)
M == Len(x)
Length == Len(Y) = M + 2 * n /\ Len(EvenExt(x, n)) = M + 2 * n /\ Len(ConstExt(x, n)) = M + 2 * n
Middle == SubSeq(Y, n + 1, n + M) = x
PointSymmetric ==
  /\ \A k \in 1..n : DAdd(Y[n + 1 - k], Y[n + 1 + k]) = DMul(Two, x[1])
  /\ \A k \in 1..n : DAdd(Y[n + M - k], Y[n + M + k]) = DMul(Two, x[M])
\* reversing commutes with extending; straight lines extend to straight lines
Reversal == Rev(Y) = OddExt(Rev(x), n) /\ Rev(EvenExt(x, n)) = EvenExt(Rev(x), n)
Linear == (\A i \in 1..(M - 2) : DSub(x[i + 2], x[i + 1]) = DSub(x[i + 1], x[i])) /\ M >= 2
          => \A i \in 1..(Len(Y) - 2) : DSub(Y[i + 2], Y[i + 1]) = DSub(Y[i + 1], Y[i])
=============================================================================
