------------------------------- MODULE GenSos -------------------------------
(* Behaviours of the scheduler half of SosFilter, written out for replay:   *)
(* which entry point takes the next chunk and how long that chunk is.       *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, SequencesExt
Depth == IF IOEnv.TIER = "thorough" THEN 3 ELSE 2
Lens == IF IOEnv.TIER = "thorough" THEN {0, 1, 3, 4, 5} ELSE {0, 1, 3, 4, 6}
Eps64 == {"dyn_ref", "dyn_val", "st_ref", "st_take", "item"}
Eps32 == {"dyn_ref", "st_val", "item", "fast32", "ifast32", "mismatch"}
Scripts(E) == UNION { [1..d -> E \X Lens] : d \in 2..Depth }
Cases == LET a == SetToSeq({[ty |-> "f64", script |-> s] : s \in Scripts(Eps64)})
             b == SetToSeq({[ty |-> "f32", script |-> s] : s \in Scripts(Eps32)}) IN a \o b
ASSUME ndJsonSerialize(IOEnv.CASES, Cases)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
