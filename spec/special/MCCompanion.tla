---------------------------- MODULE MCCompanion ----------------------------
(* What makes it the companion: for every z, C v(z) = z v(z) - (p(z)/a_1) e1 *)
(* with v(z) = (z^(n-1), ..., 1), so the eigenvalues are the roots of p.     *)
(* Compared at more points than the degree, hence as polynomials.            *)
EXTENDS Companion
CONSTANT MaxLen
VARIABLES a, on
Coef == { DInt(k) : k \in {-2, 0, 1, 3} }
Lead == { DInt(k) : k \in {-2, 1, 4} }
Init == on = FALSE /\ a \in UNION { { s \in [1..n -> Coef \cup Lead] : s[1] \in Lead /\ \A i \in 2..n : s[i] \in Coef } : n \in 2..MaxLen }
Next == ~on /\ on' = TRUE /\ UNCHANGED a
RECURSIVE Horner(_, _, _)
Horner(s, z, acc) == IF s = <<>> THEN acc ELSE Horner(Tail(s), z, DAdd(DMul(acc, z), s[1]))
RECURSIVE PowD(_, _)
PowD(x, n) == IF n = 0 THEN One ELSE DMul(x, PowD(x, n - 1))
Eigen == on => LET n == Len(a) - 1
                   c == Companion(a) IN
  \A k \in -4..4 :
    LET z == DInt(k)
        v == [i \in 1..n |-> PowD(z, n - i)] IN
    \A i \in 1..n : DDot(c[i], v) = DSub(DMul(z, v[i]), IF i = 1 THEN Div(Horner(a, z, Zero), a[1]) ELSE Zero)
=============================================================================
