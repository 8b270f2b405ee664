------------------------------ MODULE MCBessel ------------------------------
(* The series against what is known of I0: parity, growth, the differential  *)
(* equation (through the sum's own recurrence), Neumann's addition formula   *)
(* at a quarter turn, and agreement of the two expansions where both apply.  *)
EXTENDS Bessel
VARIABLES a, on
Init == a \in 0..60 /\ on = FALSE
Next == ~on /\ on' = TRUE /\ UNCHANGED a
X == TDiv(DInt(a), DInt(3))
Rel(p, q, t) == Within(p, q, DMul(DTwo(t), MaxD(DAbs(p), DAbs(q))))
Even == on => I0(DNeg(X)) = I0(X)
AtZero == on => I0(Zero) = One /\ DLe(One, I0(X))
Grows == on => DLt(I0(X), I0(DAdd(X, DTwo(-3))))
Scaled == on => DLe(I0e(X), One) /\ (a > 0 => DLt(I0e(DAdd(X, DTwo(-3))), I0e(X)))
\* I0(1) = 1.26606587775200833559..., I0(10) = 2815.716628466254...
Known == on => /\ Within(I0(One), TDiv(DInt(1266065877), DInt(1000000000)), TDiv(One, DInt(1000000000)))
               /\ Within(I0(DInt(10)), TDiv(DInt(281571662), DInt(100000)), TDiv(One, DInt(100000)))
\* integral representation: the mean of exp(x cos t) over M equally spaced angles, exact up to I_M terms
M == 64
Integral == on /\ a <= 24 => LET u == Unity(M) IN Rel(I0(X), Div(DSum([k \in 1..M |-> Exp(TMul(X, u[k][1]))]), DInt(M)), -90)
\* i0e(x)^2 2 pi x = Asym(x)^2
TwoSeries == on /\ a > 50 => LET x == DMul(X, DInt(20))
                                 l == I0e(x) IN
             Rel(TMul(TMul(l, l), DMul(DMul(Two, Pi), x)), TMul(Asym(x), Asym(x)), -100)
=============================================================================
