------------------------------ MODULE MCSavgol ------------------------------
(* The weights reproduce every polynomial up to the fitted degree, which     *)
(* together with least norm is what "least-squares fit" means; on data of    *)
(* polynomial shape the filter returns the derivative.                       *)
EXTENDS Savgol
CONSTANT MaxW, MaxP
VARIABLES w, p, d, dl, c
Init == w \in 1..MaxW /\ p = -1 /\ d = 0 /\ dl = One /\ c = <<>>
Next == /\ p = -1
        /\ p' \in 0..(IF w - 1 < MaxP THEN w - 1 ELSE MaxP)
        /\ d' \in 0..(p' + 1)
        /\ dl' \in { One, DTwo(-1), DInt(3) }
        /\ c' = Coeffs(w, p', d', dl')
        /\ UNCHANGED w
On == p >= 0
Tol == DTwo(-100)
Moment(i) == DDot(c, [j \in 1..w |-> PowD(Pos(w)[j], i)])
Moments == On => \A i \in 0..p : Within(Moment(i), IF i = d THEN SDiv(FactD(d), PowD(dl, d)) ELSE Zero, Tol)
\* least norm: the weights are themselves a polynomial of degree p in the position
RECURSIVE Differences(_, _)
Differences(s, k) == IF k = 0 THEN s ELSE Differences([i \in 1..(Len(s) - 1) |-> DSub(s[i + 1], s[i])], k - 1)
LeastNorm == On /\ w > p + 1 => \A i \in DOMAIN Differences(c, p + 1) : Within(Differences(c, p + 1)[i], Zero, Tol)
Symmetric == On => \A j \in 1..w : Within(c[j], IF d % 2 = 0 THEN c[w + 1 - j] ELSE DNeg(c[w + 1 - j]), Tol)
\* inside the signal (no edge values used) a polynomial x^g sampled with spacing delta comes out differentiated
RECURSIVE Desc(_, _)
Desc(g, k) == IF k = 0 THEN One ELSE DMul(DInt(g), Desc(g - 1, k - 1))
Reproduces == On /\ w % 2 = 1 =>
  \A g \in 0..p :
    LET y == [i \in 1..(w + 2) |-> PowD(DMul(DInt(i - 2), dl), g)]
        h == w \div 2
        o == FilterWith(c, y) IN
    \A i \in (1 + h)..(w + 2 - h) :
      Within(o[i], IF d > g THEN Zero ELSE DMul(Desc(g, d), PowD(DMul(DInt(i - 2), dl), g - d)), DTwo(-80))
=============================================================================
