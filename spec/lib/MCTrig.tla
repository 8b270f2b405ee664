------------------------------- MODULE MCTrig -------------------------------
(* The series against what is known about the functions.                     *)
EXTENDS Trig
VARIABLES a, b
Init == a = 0 /\ b \in -12..12
Next == a = 0 /\ a' \in -40..40 \ {0} /\ UNCHANGED b
X == TDiv(DInt(a), DInt(4))
Y == TDiv(DInt(b), DInt(3))
E == DTwo(-120)
Rel(p, q) == Within(p, q, DMul(E, MaxD(DAbs(p), DAbs(q))))
Near(p, q) == Within(p, q, E)
PiIs == /\ DLt(TDiv(DInt(314159265), DInt(100000000)), Pi) /\ DLt(Pi, TDiv(DInt(314159266), DInt(100000000)))
        /\ Near(Sin(Pi), Zero) /\ Near(Cos(Pi), DInt(-1)) /\ Near(Sin(TDiv(Pi, DInt(6))), DTwo(-1))
Circle == Near(DAdd(DMul(Cos(X), Cos(X)), DMul(Sin(X), Sin(X))), One)
AddAngles == LET p == CMul(CosSin(X), CosSin(Y))
                 q == CosSin(DAdd(X, Y)) IN Near(p[1], q[1]) /\ Near(p[2], q[2])
Parity == Near(Sin(DNeg(X)), DNeg(Sin(X))) /\ Near(Cos(DNeg(X)), Cos(X))
AddExp == Rel(DMul(Exp(X), Exp(Y)), Exp(DAdd(X, Y)))
EIs == DLt(TDiv(DInt(271828182), DInt(100000000)), Exp(One)) /\ DLt(Exp(One), TDiv(DInt(271828183), DInt(100000000)))
Roots == b > 0 => LET u == Unity(b)
                      w == Rotations(1, b, b) IN
                  /\ \A i \in 1..b : Near(u[i][1], w[i][1]) /\ Near(u[i][2], w[i][2])
                  /\ b > 1 => Near(DSum([i \in 1..b |-> u[i][1]]), Zero)
=============================================================================
