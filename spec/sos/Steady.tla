------------------------------- MODULE Steady -------------------------------
(***************************************************************************)
(* Step-response steady state.  Delays d are steady for constant input s   *)
(* when one more sample s leaves them where they are; the output is then   *)
(* the constant s * H(1).                                                  *)
(***************************************************************************)
EXTENDS Sos

SumOf(s) == DSum(s)
Gain(c) == Div(SumOf(SubSeq(c, 1, 3)), SumOf(SubSeq(c, 4, 6)))

\* delays of one section that are steady under unit input (a0 = 1)
SteadyOf(c) == LET y == Gain(c)
                   z2 == R(DSub(c[3], DMul(c[6], y)))
                   z1 == R(DAdd(DSub(c[2], DMul(c[5], y)), z2)) IN <<z1, z2>>
RECURSIVE SteadyFrom(_, _, _, _)
SteadyFrom(cs, s, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE LET d == SteadyOf(cs[i]) IN
       SteadyFrom(cs, Mul(s, Gain(cs[i])), i + 1, Append(acc, <<Mul(s, d[1]), Mul(s, d[2])>>))
\* a section sees the steady output of the sections before it
SteadyState(cs) == SteadyFrom(cs, One, 1, <<>>)
RECURSIVE TotalGain(_, _)
TotalGain(cs, i) == IF i = 0 THEN One ELSE Mul(TotalGain(cs, i - 1), Gain(cs[i]))

ScaleDelays(ds, c) == [i \in DOMAIN ds |-> <<Mul(ds[i][1], c), Mul(ds[i][2], c)>>]

--------------------------------------------------------------------------
\* the same for a transfer function b/a of any order: z_k = b_k - a_k y + z_(k+1)
FirstNonZero(a) == CHOOSE i \in DOMAIN a : a[i] # Zero /\ \A j \in 1..(i - 1) : a[j] = Zero
\* leading zero denominators are dropped and the tail padded; both are normalised by a0
NormA(a) == LET f == FirstNonZero(a) IN
            [i \in DOMAIN a |-> IF f + i - 1 <= Len(a) THEN Div(a[f + i - 1], a[f]) ELSE Zero]
NormB(b, a) == LET f == FirstNonZero(a) IN [i \in DOMAIN b |-> Div(b[i], a[f])]
RECURSIVE LfBack(_, _, _, _, _)
LfBack(b, a, y, k, acc) ==
  IF k < 2 THEN acc
  ELSE LET nxt == IF acc = <<>> THEN Zero ELSE acc[1] IN
       LfBack(b, a, y, k - 1, <<R(DAdd(DSub(b[k], DMul(a[k], y)), nxt))>> \o acc)
LfSteady(b0, a0) == LET b == NormB(b0, a0)
                        a == NormA(a0)
                        y == Div(DSum(b), DSum(a)) IN LfBack(b, a, y, Len(b), <<>>)
=============================================================================
