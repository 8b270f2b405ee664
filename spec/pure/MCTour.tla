------------------------------- MODULE MCTour -------------------------------
(* Why the histories replayed are tours.  An implementation may remember an  *)
(* answer under any key derived from the arguments, keep one entry or many,  *)
(* let the first or the last answer win, and forget all but the last key.    *)
(* Whenever such a memory can ever answer wrongly, a history that puts every *)
(* ordered pair of calls next to each other, compared with each call made    *)
(* alone, contradicts the specification; and it never contradicts it when    *)
(* the memory is harmless.                                                   *)
EXTENDS Pure, Integers, Sequences
CONSTANT N
VARIABLES truth, key, keep, mem, at, caught
Arg == 0..(N - 1)
\* every ordered pair once: c, 0, c, 1, c, 2 ... for each c
RECURSIVE Block(_, _)
Block(c, d) == IF d = N THEN << >> ELSE <<c, d>> \o Block(c, d + 1)
RECURSIVE All(_)
All(c) == IF c = N THEN << >> ELSE Block(c, 0) \o All(c + 1)
Tour == TLCEval(All(0))
\* what the remembering implementation answers, and remembers afterwards
Ask(c) == IF key[c] \in DOMAIN mem THEN mem[key[c]] ELSE truth[c]
Mem(c) == LET a == Ask(c) IN
  IF keep = "one" THEN key[c] :> a
  ELSE IF keep = "many" THEN (key[c] :> a) @@ mem
  ELSE IF mem = << >> THEN key[c] :> a ELSE mem
TInit == /\ truth \in [Arg -> 0..1] /\ key \in [Arg -> Arg] /\ keep \in {"one", "many", "first"}
         /\ mem = << >> /\ at = 1 /\ caught = FALSE
         /\ given = truth                       \* each call made alone
TNext == /\ at <= Len(Tour)
         /\ LET c == Tour[at] IN
            /\ caught' = (caught \/ ~Fits(given, c, Ask(c)))
            /\ mem' = Mem(c)
         /\ at' = at + 1
         /\ UNCHANGED <<truth, key, keep, given>>
\* can some history get a wrong answer out of it?
Harmful == \E c, d \in Arg : key[c] = key[d] /\ truth[c] # truth[d]
\* a memory that never forgets its first entry only ever serves that entry's key
FirstHarm == \E d \in Arg : key[d] = key[Tour[1]] /\ truth[d] # truth[Tour[1]]
Caught == at > Len(Tour) => (caught = IF keep = "first" THEN FirstHarm ELSE Harmful)
=============================================================================
