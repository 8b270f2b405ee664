------------------------------ MODULE Recipes ------------------------------
(***************************************************************************)
(* Long samples by rule, with their statistics in closed form: what the    *)
(* definitions of Stats give for them at any length (MCRecipes compares    *)
(* the two for every small length).                                        *)
(*   ramp 0 1 2 ..   fall .. 2 1 0   peak 0 1 2 .. 2 1 0   valley 2 1 0 1 2*)
(*   step: zeros, from a third on fives   alt: 1 -1 1 -1 ..                *)
(***************************************************************************)
EXTENDS Stats
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
At(kind, n, i) == CASE kind = "ramp" -> i
                    [] kind = "fall" -> n - 1 - i
                    [] kind = "peak" -> MinI(i, n - 1 - i)
                    [] kind = "valley" -> MaxI(i, n - 1 - i)
                    [] kind = "step" -> IF i < n \div 3 THEN 0 ELSE 5
                    [] kind = "alt" -> IF i % 2 = 0 THEN 1 ELSE -1
Sample(kind, n) == [i \in 1..n |-> DInt(At(kind, n, i - 1))]
Kinds == {"ramp", "fall", "peak", "valley", "step", "alt"}

Rank(kind, n, k) == CASE kind \in {"ramp", "fall"} -> k
                      [] kind = "peak" -> k \div 2
                      [] kind = "valley" -> n - 1 - ((n - 1 - k) \div 2)
                      [] kind = "step" -> IF k < n \div 3 THEN 0 ELSE 5
                      [] kind = "alt" -> IF k < n \div 2 THEN -1 ELSE 1
Half(a, b) == DMul(DInt(a + b), DTwo(-1))
BigMedian(kind, n) == IF n % 2 = 1 THEN DInt(Rank(kind, n, n \div 2)) ELSE Half(Rank(kind, n, n \div 2 - 1), Rank(kind, n, n \div 2))
\* deviations of a ramp from its middle: 0 1 1 2 2 .. or 1/2 1/2 3/2 3/2 ..
RampDev(n, k) == IF n % 2 = 1 THEN DInt((k + 1) \div 2) ELSE Half(1, 2 * (k \div 2))
BigMad(n) == IF n % 2 = 1 THEN RampDev(n, n \div 2) ELSE DMul(DAdd(RampDev(n, n \div 2 - 1), RampDev(n, n \div 2)), DTwo(-1))
Q(a, b) == Div(a, b)
BigMean(kind, n) == CASE kind \in {"ramp", "fall"} -> Half(n, -1)
                      [] kind = "step" -> Q(DInt(5 * (n - n \div 3)), DInt(n))
                      [] kind = "alt" -> Q(DInt(n % 2), DInt(n))
BigVar(kind, n) == CASE kind \in {"ramp", "fall"} -> Q(DSub(DMul(DInt(n), DInt(n)), One), DInt(12))
                     [] kind = "step" -> Q(DMul(DInt(25), DMul(DInt(n \div 3), DInt(n - n \div 3))), DMul(DInt(n), DInt(n)))
                     [] kind = "alt" -> DSub(One, DMul(BigMean(kind, n), BigMean(kind, n)))
\* mean square difference of neighbours
BigMssd(kind, n) == CASE kind \in {"ramp", "fall"} -> One
                      [] kind = "step" -> Q(DInt(25), DInt(n - 1))
                      [] kind = "alt" -> DInt(4)
\* the differences, as runs <<value, length>>
Runs(kind, n) == CASE kind = "ramp" -> <<<<1, n - 1>>>>
                   [] kind = "fall" -> <<<<-1, n - 1>>>>
                   [] kind = "step" -> <<<<0, n \div 3 - 1>>, <<5, 1>>, <<0, n - n \div 3 - 1>>>>
\* lagged sum of products of the alternating sample of even size (its mean is zero)
AltSum(n, h) == DInt(IF h >= n THEN 0 ELSE IF h % 2 = 0 THEN n - h ELSE h - n)
=============================================================================
