----------------------------- MODULE MCConvolve -----------------------------
(* Laws of convolution on every pair of short sequences over {-1, 0, 2}.     *)
EXTENDS Convolve, FiniteSets
CONSTANT MaxLen
A == { DInt(-1), Zero, Two }
Seqs == UNION { [1..n -> A] : n \in 1..MaxLen }
VARIABLES a, b
Init == a \in Seqs /\ b = <<>>
Next == b = <<>> /\ b' \in Seqs /\ UNCHANGED a
On == b # <<>>
N1 == Len(a)
N2 == Len(b)
RECURSIVE PolyAt(_, _)
PolyAt(p, z) == IF p = <<>> THEN Zero ELSE DAdd(p[1], DMul(z, PolyAt(Tail(p), z)))
\* convolution multiplies polynomials: compared at more points than the degree, hence everywhere
Multiplies == On => \A k \in -4..4 : PolyAt(Full(a, b), DInt(k)) = DMul(PolyAt(a, DInt(k)), PolyAt(b, DInt(k)))
Commutes == On => Full(a, b) = Full(b, a) /\ Convolve(a, b, "Valid") = Convolve(b, a, "Valid")
Lengths == On => /\ Len(Convolve(a, b, "Full")) = N1 + N2 - 1
                 /\ Len(Convolve(a, b, "Same")) = N1
                 /\ Len(Convolve(a, b, "Valid")) = Max2(N1, N2) - Min2(N1, N2) + 1
\* valid samples are exactly those where the shorter sequence lies wholly inside the longer one
ValidInside == On /\ N1 >= N2 =>
  Convolve(a, b, "Valid") = [k \in 1..(N1 - N2 + 1) |-> DSum([j \in 1..N2 |-> DMul(b[j], a[k + N2 - j])])]
\* same is centred: as many samples dropped in front as behind, up to one
Centred == On => \E i \in 0..(N2 - 1) : /\ Convolve(a, b, "Same") = SubSeq(Full(a, b), i + 1, i + N1)
                                       /\ ((N2 - 1) - i) - i \in {0, 1}
\* correlation is convolution with the reversed second argument, and reverses when the arguments swap
CorrLag == On => /\ Rev(Correlate(a, b, "Full")) = Correlate(b, a, "Full")
                 /\ \A k \in (1 - N2)..(N1 - 1) :
                      Correlate(a, b, "Full")[k + N2] = DSum([j \in 1..N2 |-> IF j + k \in 1..N1 THEN DMul(a[j + k], b[j]) ELSE Zero])
AutoPeak == \A k \in 1..(2 * N1 - 1) : DLe(DAbs(Correlate(a, a, "Full")[k]), Correlate(a, a, "Full")[N1])
=============================================================================
