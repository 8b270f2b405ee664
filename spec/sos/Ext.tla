-------------------------------- MODULE Ext --------------------------------
(***************************************************************************)
(* Signal extension at both ends.  x is a sequence; n < Len(x).            *)
(*   odd:      point reflection through the end values                     *)
(*   even:     mirror image about the end values                           *)
(*   constant: end values repeated                                         *)
(***************************************************************************)
EXTENDS Num, TLC

OddExt(x, n) ==
  LET m == Len(x) IN
  [k \in 1..(m + 2 * n) |->
    LET i == k - n IN
    IF i < 1 THEN DSub(DMul(Two, x[1]), x[2 - i])
    ELSE IF i > m THEN DSub(DMul(Two, x[m]), x[2 * m - i])
    ELSE x[i]]
EvenExt(x, n) ==
  LET m == Len(x) IN
  [k \in 1..(m + 2 * n) |->
    LET i == k - n IN IF i < 1 THEN x[2 - i] ELSE IF i > m THEN x[2 * m - i] ELSE x[i]]
ConstExt(x, n) ==
  LET m == Len(x) IN
  [k \in 1..(m + 2 * n) |->
    LET i == k - n IN IF i < 1 THEN x[1] ELSE IF i > m THEN x[m] ELSE x[i]]

\* a matrix is a sequence of rows; extension along an axis
Rows(m) == Len(m)
Cols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
Transpose(m) == TLCEval([j \in 1..Cols(m) |-> TLCEval([i \in 1..Rows(m) |-> m[i][j]])])
Along(Ex(_, _), m, n, axis) ==
  IF axis = 1 THEN TLCEval([i \in DOMAIN m |-> TLCEval(Ex(m[i], n))])
  ELSE IF Cols(m) = 0 THEN [i \in 1..(IF m = <<>> THEN 0 ELSE Rows(m) + 2 * n) |-> <<>>]
  ELSE LET t == Transpose(m) IN Transpose(TLCEval([j \in 1..Cols(m) |-> TLCEval(Ex(t[j], n))]))
Extent(m, axis) == IF axis = 0 THEN Rows(m) ELSE Cols(m)

OddMat(m, n, axis) == Along(OddExt, m, n, axis)
EvenMat(m, n, axis) == Along(EvenExt, m, n, axis)
ConstMat(m, n, axis) == Along(ConstExt, m, n, axis)
=============================================================================
