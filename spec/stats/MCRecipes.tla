----------------------------- MODULE MCRecipes -----------------------------
(* The closed forms are what the definitions give.                           *)
EXTENDS Recipes
CONSTANT MaxN
VARIABLES kind, n
Init == kind \in Kinds /\ n = 1
Next == n < MaxN /\ n' = n + 1 /\ kind' = kind
Spec == Init /\ [][Next]_<<kind, n>>
Y == Sample(kind, n)
Near(a, b) == Within(a, b, DTwo(-90))
RECURSIVE Expand(_, _)
Expand(rs, i) == IF i > Len(rs) THEN <<>> ELSE [j \in 1..rs[i][2] |-> DInt(rs[i][1])] \o Expand(rs, i + 1)
Median == BigMedian(kind, n) = MedianOf(Y) /\ \A k \in 0..(n - 1) : DInt(Rank(kind, n, k)) = Ranked(Y, k)
Mad == kind \in {"ramp", "fall"} => BigMad(n) = MadOf(Y)
Moments == kind \notin {"peak", "valley"} => Near(BigMean(kind, n), MeanOf(Y)) /\ Near(BigVar(kind, n), VarOf(Y))
Mssd == kind \notin {"peak", "valley"} /\ n >= 3 => Near(BigMssd(kind, n), MssdOf(Y))
Diff == kind \in {"ramp", "fall", "step"} /\ n >= 3 => Expand(Runs(kind, n), 1) = LagDiff(Y)
Alt == kind = "alt" /\ n % 2 = 0 => \A h \in 0..(n + 1) : Near(AltSum(n, h), AutoSum(Y, h))
=============================================================================
