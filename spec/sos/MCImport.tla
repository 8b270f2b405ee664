------------------------------ MODULE MCImport ------------------------------
(* Importing loses nothing: the sections read in order are the array again.   *)
EXTENDS Import, SequencesExt
VARIABLES order, len
Init == order \in 0..5 /\ len \in 0..31
Next == UNCHANGED <<order, len>>
Arr == [i \in 1..len |-> DInt(i)]
Lossless == Fits(order, Arr) => FlattenSeq(Import(order, Arr)) = Arr
OnlyWhole == Fits(order, Arr) => len % 6 = 0 /\ Len(Import(order, Arr)) = order
Unique == \A o \in 0..5 : Fits(order, Arr) /\ Fits(o, Arr) => o = order
=============================================================================
