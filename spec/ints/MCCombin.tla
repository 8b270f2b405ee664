------------------------------ MODULE MCCombin ------------------------------
(* The formulas count what they are said to count: every set, injection,     *)
(* multiset and partition of a small universe is enumerated and counted.     *)
EXTENDS Combin, Integers, FiniteSets, FiniteSetsExt
VARIABLES n, k
Init == n \in 0..7 /\ k \in 0..7
Next == UNCHANGED <<n, k>>
U == 1..n
M == DTwo(100)
D(c) == DInt(c)
Subsets == Cardinality({ s \in SUBSET U : Cardinality(s) = k })
Injections == IF k > 4 THEN -1 ELSE Cardinality({ f \in [1..k -> U] : \A i, j \in 1..k : f[i] = f[j] => i = j })
\* non-decreasing k-tuples are multisets
Multisets == IF k > 4 THEN -1 ELSE Cardinality({ f \in [1..k -> U] : \A i \in 1..(k - 1) : f[i] <= f[i + 1] })
\* restricted growth strings are set partitions
Partitions == IF n > 6 THEN -1
  ELSE Cardinality({ f \in [U -> 0..(n - 1)] : /\ \A i \in U : f[i] <= Max({-1} \cup { f[j] : j \in 1..(i - 1) }) + 1
                                               /\ Cardinality({ f[i] : i \in U }) = k })
CountsSubsets == Comb(D(n), D(k), M) = D(Subsets)
CountsInjections == Injections = -1 \/ Perm(D(n), D(k), M) = D(Injections)
CountsMultisets == Multisets = -1 \/ CombRep(D(n), D(k), M) = D(Multisets)
CountsPartitions == Partitions = -1 \/ Stirling2(n, k) = D(Partitions)
Pascal == n > 0 /\ k > 0 => Comb(D(n), D(k), M) = DAdd(Comb(D(n - 1), D(k), M), Comb(D(n - 1), D(k - 1), M))
Symmetric == k <= n => Comb(D(n), D(k), M) = Comb(D(n), D(n - k), M)
Factorials == /\ Perm(D(n), D(n), M) = Fact(D(n), M)
              /\ n > 0 => Fact(D(n), M) = DMul(Fact2(D(n), M), Fact2(D(n - 1), M))
              /\ k > 0 => KFact(D(n + k), D(k), M) = DMul(D(n + k), KFact(D(n), D(k), M))
Capped == /\ Comb(D(n), D(k), D(20)) = Cap(Comb(D(n), D(k), M), D(20))
          /\ Perm(D(n), D(k), D(20)) = Cap(Perm(D(n), D(k), M), D(20))
          /\ Fact(D(n), D(20)) = Cap(Fact(D(n), M), D(20))
=============================================================================
