------------------------------- MODULE Bessel -------------------------------
(***************************************************************************)
(* The modified Bessel function I0 by its power series                     *)
(*    I0(x) = sum (x^2/4)^k / k!^2,                                        *)
(* all terms positive, so the sum has full relative accuracy; and for      *)
(* large x the asymptotic series of exp(-x) sqrt(2 pi x) I0(x).            *)
(***************************************************************************)
EXTENDS Trig
RECURSIVE I0Sum(_, _, _, _)
I0Sum(q, t, k, acc) ==
  IF DLe(t, DMul(acc, DTwo(-170))) THEN acc
  ELSE I0Sum(q, TDiv(TMul(t, q), DInt(k * k)), k + 1, TR(DAdd(acc, t)))
I0(x) == I0Sum(TMul(DMul(x, x), DTwo(-2)), One, 1, Zero)
I0e(x) == TMul(I0(x), Exp(DNeg(DAbs(x))))
\* sum ((2k-1)!!)^2 / (k! (8x)^k), stopped when the terms are negligible (they shrink for x > 100)
RECURSIVE AsymSum(_, _, _, _)
AsymSum(x, t, k, acc) ==
  IF DLe(t, DTwo(-140)) \/ k > 60 THEN acc
  ELSE AsymSum(x, TDiv(TMul(t, DInt((2 * k - 1) * (2 * k - 1))), DMul(DInt(8 * k), x)), k + 1, TR(DAdd(acc, t)))
Asym(x) == AsymSum(x, One, 1, Zero)
=============================================================================
