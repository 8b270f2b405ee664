-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* The library as one big function: whatever was called before, a call is  *)
(* answered the same way.  The specification remembers the answers given;  *)
(* a repeated call must get the remembered answer.  Calls may come in any  *)
(* order, any number of times, mixed with any others.                      *)
(***************************************************************************)
EXTENDS TLC
CONSTANTS Calls, Answers
VARIABLE given                      \* call -> answer, for the calls made so far
Init == given = << >>
Fits(g, c, a) == c \in DOMAIN g => g[c] = a
Learn(g, c, a) == IF c \in DOMAIN g THEN g ELSE g @@ (c :> a)
Call(c, a) == Fits(given, c, a) /\ given' = Learn(given, c, a)
Next == \E c \in Calls, a \in Answers : Call(c, a)
Spec == Init /\ [][Next]_given
=============================================================================
