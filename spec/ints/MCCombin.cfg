INIT Init
NEXT Next
INVARIANTS CountsSubsets CountsInjections CountsMultisets CountsPartitions Pascal Symmetric Factorials Capped
CHECK_DEADLOCK FALSE
