------------------------------- MODULE Combin -------------------------------
(***************************************************************************)
(* Factorials and counting functions on exact integers (Dyadic numbers     *)
(* with no fraction).  An answer the type of the call cannot represent is  *)
(* the value Huge; evaluation stops as soon as a partial result exceeds    *)
(* the largest value, which is sound because partial results only grow.    *)
(***************************************************************************)
EXTENDS Dyadic, TLC

One == DInt(1)
Huge == <<2>>

\* bits of each primitive type; largest value
Bits(ty) == CASE ty \in {"u8", "i8"} -> 8 [] ty \in {"u16", "i16"} -> 16 [] ty \in {"u32", "i32"} -> 32
              [] ty \in {"u64", "i64", "usize", "isize"} -> 64 [] ty \in {"u128", "i128"} -> 128
Signed(ty) == ty \in {"i8", "i16", "i32", "i64", "i128", "isize"}
MaxOf(ty) == DSub(DTwo(IF Signed(ty) THEN Bits(ty) - 1 ELSE Bits(ty)), One)
MinOf(ty) == IF Signed(ty) THEN DNeg(DTwo(Bits(ty) - 1)) ELSE Zero
Cap(v, m) == IF DLe(v, m) THEN v ELSE Huge
Neg(v) == DSgn(v) = -1

\* n (n-k) (n-2k) ... down to the last positive term
RECURSIVE Down(_, _, _, _)
Down(n, k, m, acc) ==
  IF DSgn(n) # 1 THEN acc
  ELSE LET p == DMul(acc, n) IN IF DLe(p, m) THEN Down(DSub(n, k), k, m, p) ELSE Huge
KFact(n, k, m) == IF Neg(n) THEN Zero ELSE Down(n, k, m, One)
Fact(n, m) == KFact(n, One, m)
Fact2(n, m) == KFact(n, DInt(2), m)

\* C(n, k), by C(n, i+1) = C(n, i) (n - i) / (i + 1) over the shorter side
RECURSIVE CombUp(_, _, _, _, _)
CombUp(n, i, k, m, acc) ==
  IF ~DLt(i, k) THEN acc
  ELSE LET i1 == DAdd(i, One)
           q == DDiv(DMul(acc, DSub(n, i)), i1, 24) IN       \* exact: the quotient is an integer
       IF DLe(q, m) THEN CombUp(n, i1, k, m, q) ELSE Huge
Comb(n, k, m) ==
  IF Neg(n) \/ Neg(k) \/ DLt(n, k) THEN Zero
  ELSE LET o == DSub(n, k) IN CombUp(n, Zero, IF DLt(o, k) THEN o ELSE k, m, One)
\* multisets of size k from n kinds
CombRep(n, k, m) == IF Neg(n) \/ Neg(k) THEN Zero
                    ELSE IF n = Zero THEN (IF k = Zero THEN One ELSE Zero)
                    ELSE Comb(DSub(DAdd(n, k), One), k, m)
\* falling factorial n (n-1) ... (n-k+1)
RECURSIVE Falling(_, _, _, _)
Falling(n, k, m, acc) ==
  IF k = Zero THEN acc
  ELSE LET p == DMul(acc, n) IN IF DLe(p, m) THEN Falling(DSub(n, One), DSub(k, One), m, p) ELSE Huge
Perm(n, k, m) == IF Neg(n) \/ Neg(k) \/ DLt(n, k) THEN Zero ELSE Falling(n, k, m, One)

\* Stirling numbers of the second kind, small n and k, by the recurrence on rows
\* S(n, j) = j S(n-1, j) + S(n-1, j-1); a row is <<S(n,0), ..., S(n,k)>>
NextRow(p) == [j \in DOMAIN p |-> IF j = 1 THEN Zero ELSE DAdd(DMul(DInt(j - 1), p[j]), p[j - 1])]
FirstRow(k) == [j \in 1..(k + 1) |-> IF j = 1 THEN One ELSE Zero]
RECURSIVE StirRow(_, _)
StirRow(n, p) == IF n = 0 THEN p ELSE StirRow(n - 1, TLCEval(NextRow(p)))
Stirling2(n, k) == IF n < 0 \/ k < 0 \/ k > n THEN Zero ELSE StirRow(n, TLCEval(FirstRow(k)))[k + 1]
=============================================================================
