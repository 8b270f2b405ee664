------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Descriptive statistics over sequences of exact numbers.  Square roots   *)
(* are not taken: an answer r that should be the root of v is judged by    *)
(* r >= 0 and r^2 = v.                                                     *)
(***************************************************************************)
EXTENDS Num

\* v is the element of rank k (0-based) of y: it occurs, at most k are smaller, more than k are not larger
Less(y, v) == Len(SelectSeq(y, LAMBDA u : DLt(u, v)))
NotMore(y, v) == Len(SelectSeq(y, LAMBDA u : DLe(u, v)))
HasRank(y, k, v) == /\ \E i \in DOMAIN y : y[i] = v
                    /\ Less(y, v) <= k /\ k < NotMore(y, v)
Sorted(y) == SortSeq(y, DLt)
Ranked(y, k) == Sorted(y)[k + 1]
\* n odd: the middle value; n even: the pair of middle values
Middle(y) == LET n == Len(y)
                 s == Sorted(y) IN
             IF n % 2 = 1 THEN <<s[(n + 1) \div 2], s[(n + 1) \div 2]>> ELSE <<s[n \div 2], s[n \div 2 + 1]>>
MedianOf(y) == IF y = <<>> THEN Zero ELSE Div(DAdd(Middle(y)[1], Middle(y)[2]), Two)
AbsDev(y) == LET m == MedianOf(y) IN [i \in DOMAIN y |-> DAbs(DSub(y[i], m))]
MadOf(y) == MedianOf(AbsDev(y))

Count(y) == DInt(Len(y))
MeanOf(y) == IF y = <<>> THEN Zero ELSE Div(DSum(y), Count(y))
Centred(y) == LET m == MeanOf(y) IN [i \in DOMAIN y |-> DSub(y[i], m)]
MeanSq(y) == IF y = <<>> THEN Zero ELSE Div(DDot(y, y), Count(y))
VarOf(y) == MeanSq(Centred(y))
LagDiff(y) == [i \in 1..(IF y = <<>> THEN 0 ELSE Len(y) - 1) |-> DSub(y[i + 1], y[i])]
MssdOf(y) == MeanSq(LagDiff(y))
\* sum of products of the centred signal with itself h samples later
AutoSum(y, h) == LET c == Centred(y)
                     n == Len(y) IN
                 IF h >= n THEN Zero ELSE DDot(SubSeq(c, 1, n - h), SubSeq(c, h + 1, n))
=============================================================================
