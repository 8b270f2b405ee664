----------------------------- MODULE MCResample -----------------------------
(* Laws of the resampling definition on unit impulses (it is linear), for    *)
(* every pair of lengths up to MaxN.                                         *)
EXTENDS Resample
CONSTANT MaxN
VARIABLES N, n, p, y
vars == <<N, n, p, y>>
E(i, len) == [j \in 1..len |-> IF j = i THEN One ELSE Zero]
Init == N \in 1..MaxN /\ n = 0 /\ p = 0 /\ y = <<>>
Next == /\ n = 0
        /\ n' \in 1..MaxN
        /\ p' \in 1..N
        /\ y' = ResampleW(E(p', N), n', One)
        /\ UNCHANGED N
On == n > 0
Small == IF N < n THEN N ELSE n
Eps2 == DTwo(-110)
Same(s, t) == SeqWithin(s, t, Eps2)
Identity == On /\ n = N /\ N % 2 = 0 => Same(y, E(p, N))
\* growing by a whole factor keeps the samples
Interpolates == On /\ N % 2 = 0 /\ n % N = 0 => \A m \in 1..N : Within(y[(m - 1) * (n \div N) + 1], E(p, N)[m], Eps2)
\* growing and coming back changes nothing
RoundTrip == On /\ N % 2 = 0 /\ n > N => Same(ResampleW(y, N, Two), E(p, N))
\* the mean is kept
MeanKept == On /\ Small > 1 => Within(Div(DSum(y), DInt(n)), Div(One, DInt(N)), Eps2)
\* odd lengths with the symmetric weight are exact interpolation too
OddIdentity == On /\ n = N /\ N % 2 = 1 /\ N > 1 => Same(ResampleW(E(p, N), N, Two), E(p, N))
\* a tone below the highest bin is the same tone at the new length, whatever the weight
ToneKept == On /\ p < (Small \div 2) /\ (Small % 2 = 1 \/ p < Small \div 2) =>
              \A w \in Tops(N, n) : Same(ResampleW(Tones(<<<<p, Two, DInt(-3)>>>>, N), n, w), Tones(<<<<p, Two, DInt(-3)>>>>, n))
=============================================================================
