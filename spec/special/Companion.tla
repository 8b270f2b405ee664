----------------------------- MODULE Companion -----------------------------
(* The companion matrix of a_1 z^n + a_2 z^(n-1) + ... + a_(n+1), as rows.   *)
EXTENDS Num
Companion(a) == LET n == Len(a) - 1 IN
  [i \in 1..n |-> [j \in 1..n |-> IF i = 1 THEN Div(DNeg(a[j + 1]), a[1]) ELSE IF j = i - 1 THEN One ELSE Zero]]
=============================================================================
