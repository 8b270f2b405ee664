------------------------------ MODULE Convolve ------------------------------
(* Linear convolution and correlation of finite sequences, and the three    *)
(* ways to cut the result.                                                  *)
EXTENDS Num, TLC
Max2(i, j) == IF i > j THEN i ELSE j
Min2(i, j) == IF i < j THEN i ELSE j
\* a_1 b_k + a_2 b_(k-1) + ... over the indices that exist
ConvAt(a, rb, k) ==
  LET n2 == Len(rb)
      lo == Max2(1, k - n2 + 1)
      hi == Min2(Len(a), k) IN
  DDot(SubSeq(a, lo, hi), SubSeq(rb, n2 - k + lo, n2 - k + hi))
Full(a, b) == LET rb == TLCEval(Rev(b)) IN TLCEval([k \in 1..(Len(a) + Len(b) - 1) |-> ConvAt(a, rb, k)])
Cut(full, n1, n2, mode) ==
  CASE mode = "Full" -> full
    [] mode = "Same" -> SubSeq(full, (n2 - 1) \div 2 + 1, (n2 - 1) \div 2 + n1)
    [] mode = "Valid" -> SubSeq(full, Min2(n1, n2), Max2(n1, n2))
Convolve(a, b, mode) == Cut(Full(a, b), Len(a), Len(b), mode)
Correlate(a, b, mode) == Convolve(a, TLCEval(Rev(b)), mode)
=============================================================================
