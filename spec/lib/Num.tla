-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Small vocabulary over Dyadic: sequences of numbers, tolerances.         *)
(*                                                                         *)
(* The specifications compute with at least Prec limbs (Prec * 15 bits),   *)
(* far beyond f64; Eps(ty) is the relative distance from the specified     *)
(* value that counts as "the same value up to rounding" for a result the   *)
(* code computed in floating point type ty.                                *)
(***************************************************************************)
EXTENDS Dyadic, SequencesExt

Prec == 9
R(a) == DRound(a, Prec)
Mul(a, b) == R(DMul(a, b))
Div(a, b) == DDiv(a, b, Prec)
One == DInt(1)
Two == DInt(2)

IsNums(s) == \A i \in DOMAIN s : IsNum(s[i])
MaxD(a, b) == IF DLt(a, b) THEN b ELSE a
MinD(a, b) == IF DLt(a, b) THEN a ELSE b

\* |got - want| <= tol ; FALSE when either is not a number
Within(got, want, tol) == DLe(DAbs(DSub(got, want)), tol)

Unit(ty) == IF ty = "f32" THEN DTwo(-23) ELSE DTwo(-52)
Eps(ty) == IF ty = "f32" THEN DTwo(-12) ELSE IF ty = "f64" THEN DTwo(-34) ELSE Zero

\* componentwise, relative to the largest magnitude in play
SeqWithin(got, want, tol) ==
  /\ Len(got) = Len(want)
  /\ \A i \in DOMAIN want : Within(got[i], want[i], tol)
SeqClose(got, want, ty, scale) ==
  SeqWithin(got, want, DMul(Eps(ty), MaxD(DMaxAbs(want), scale)))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
ScaleSeq(c, s) == [i \in DOMAIN s |-> Mul(c, s[i])]
ZeroSeq(n) == [i \in 1..n |-> Zero]
=============================================================================
