------------------------------ MODULE FiltFilt ------------------------------
(***************************************************************************)
(* Zero-phase filtering: extend oddly, filter forwards from the steady     *)
(* state of the first extended value, filter the reversed result from the  *)
(* steady state of its first value, reverse, cut the extension away.       *)
(***************************************************************************)
EXTENDS Steady, Ext

CountZero(cs, k) == Len(SelectSeq(cs, LAMBDA c : c[k] = Zero))
Min2(i, j) == IF i < j THEN i ELSE j
Taps(cs) == 2 * Len(cs) + 1 - Min2(CountZero(cs, 3), CountZero(cs, 6))
EdgeOf(cs) == 3 * Taps(cs)

Pass(cs, x) == Run(cs, ScaleDelays(SteadyState(cs), x[1]), x).y
FiltFilt(cs, x) ==
  LET n == EdgeOf(cs)
      fwd == Pass(cs, OddExt(x, n))
      bwd == Pass(cs, Rev(fwd)) IN
  SubSeq(Rev(bwd), n + 1, n + Len(x))
=============================================================================
