----------------------------- MODULE MCFiltFilt -----------------------------
(* Laws of the zero-phase procedure on every short signal over a small       *)
(* alphabet: constants are scaled by H(1)^2, the map is linear, and for FIR  *)
(* cascades it commutes with time reversal (that is what zero phase means).  *)
EXTENDS FiltFilt, FiniteSets
I(s) == [k \in DOMAIN s |-> DInt(s[k])]
Cascades == { <<>>, <<I(<<1, 2, 0, 1, 0, 0>>)>>, <<I(<<1, -1, 0, 1, 1, 0>>)>>, <<I(<<2, -1, 0, 1, 0, 0>>), I(<<0, 1, 0, 1, 0, 0>>)>> }
VARIABLES coef, x, z
N == EdgeOf(coef) + 1
Init == /\ coef \in Cascades
        /\ x = <<>> /\ z = <<>>
\* the interesting part of the signal is its last samples; the rest is flat
Tails == [1..3 -> { DInt(k) : k \in {-1, 0, 2} }]
Next == /\ x = <<>>
        /\ \E t \in Tails, u \in {<<One, Zero, Zero>>, <<Zero, One, DInt(-2)>>} :
             /\ x' = [i \in 1..N |-> IF i <= N - 3 THEN DInt(3) ELSE t[i - N + 3]]
             /\ z' = [i \in 1..N |-> IF i <= N - 3 THEN One ELSE u[i - N + 3]]
        /\ UNCHANGED coef
Picked == x # <<>>
IsFir == \A i \in DOMAIN coef : coef[i][5] = Zero /\ coef[i][6] = Zero
SameLen == Picked => Len(FiltFilt(coef, x)) = Len(x)
Linear == Picked =>
  FiltFilt(coef, [i \in 1..N |-> DAdd(x[i], z[i])])
    = [i \in 1..N |-> DAdd(FiltFilt(coef, x)[i], FiltFilt(coef, z)[i])]
Constants == LET c == [i \in 1..N |-> DInt(5)]
                 g == TotalGain(coef, Len(coef)) IN
             FiltFilt(coef, c) = [i \in 1..N |-> Mul(DInt(5), Mul(g, g))]
ZeroPhase == Picked /\ IsFir => FiltFilt(coef, Rev(x)) = Rev(FiltFilt(coef, x))
=============================================================================
