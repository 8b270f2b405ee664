------------------------------ MODULE MCSquare ------------------------------
(* Over one and several periods sampled finely: periodicity, the fraction of *)
(* time spent high, and complementarity.                                     *)
EXTENDS Square
VARIABLES d, per
M == 48
Init == d \in 0..M /\ per = -9
Next == per = -9 /\ per' \in -2..2 /\ UNCHANGED d
Duty == Div(DInt(d), DInt(M))
\* mid-points of M cells of a period
T(k, p) == DMul(TwoPi, DAdd(DInt(p), Div(DAdd(DInt(k), DTwo(-1)), DInt(M))))
Val(t, p, duty) == Level(DSub(t, DMul(DInt(p), TwoPi)), duty)
Fraction == per # -9 => Len(SelectSeq([k \in 1..M |-> Val(T(k - 1, per), per, Duty)], LAMBDA v : v = One)) = d
OneSwitch == \A k \in 1..(M - 1) : Val(T(k - 1, 0), 0, Duty) = DInt(-1) => Val(T(k, 0), 0, Duty) = DInt(-1)
NeedsDuty == Legal(Duty) /\ ~Legal(DAdd(Duty, DInt(2))) /\ ~Legal(DSub(Duty, DInt(2))) /\ ~Legal(NaN)
=============================================================================
