------------------------------ MODULE MCSteady ------------------------------
(* The steady state is a fixed point: from it, constant input leaves the     *)
(* delays and the output where they are, forever, for every cascade.         *)
EXTENDS Steady, FiniteSets
I(s) == [k \in DOMAIN s |-> DInt(s[k])]
V == -1..1
\* sections whose gain is a dyadic number, so that the arithmetic is exact
Secs == { <<b[1], b[2], b[3], 1, a[1], a[2]>> : b \in [1..3 -> V], a \in {x \in [1..2 -> V] : 1 + x[1] + x[2] \in {1, 2}} }
Levels == {-3, 1}
VARIABLES coef, level, delay, y
Init == /\ \E n \in 0..2 : \E s \in [1..n -> { x \in Secs : n = 1 \/ x[1] = 1 }] : coef = [i \in 1..n |-> I(s[i])]
        /\ level \in { DInt(k) : k \in Levels }
        /\ delay = ScaleDelays(SteadyState(coef), level)
        /\ y = Mul(level, TotalGain(coef, Len(coef)))
Next == LET r == Run(coef, delay, <<level>>) IN
        /\ delay' = r.d /\ y' = r.y[1] /\ UNCHANGED <<coef, level>>
vars == <<coef, level, delay, y>>
Spec == Init /\ [][Next]_vars
Fixed == [][delay' = delay /\ y' = y]_vars
\* the general-order formula gives the same state for one section
SameAsGeneral == Len(coef) = 1 =>
  LfSteady(SubSeq(coef[1], 1, 3), SubSeq(coef[1], 4, 6)) = SteadyState(coef)[1]
\* the first output equals the level when the gain is one: no start-up transient
Starts == y = Mul(level, TotalGain(coef, Len(coef)))
=============================================================================
