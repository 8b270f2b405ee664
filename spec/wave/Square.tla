------------------------------- MODULE Square -------------------------------
(* The periodic rectangle: +1 on the first part of each period, -1 after.    *)
EXTENDS Trig
TwoPi == DMul(Two, Pi)
Legal(duty) == IsNum(duty) /\ DLe(Zero, duty) /\ DLe(duty, One)
\* x = t - 2 pi q in [0, 2 pi)
Level(x, duty) == IF DLt(x, DMul(duty, TwoPi)) THEN One ELSE DInt(-1)
\* the value for the phase x; within slack of a switching point either side is right.
\* duty 0 and duty 1 have no switching point but the period's own boundary
NearEdge(x, duty, slack) ==
  \/ Within(x, DMul(duty, TwoPi), slack)
  \/ Within(x, Zero, slack)
  \/ Within(x, TwoPi, slack)
=============================================================================
