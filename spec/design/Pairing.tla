------------------------------ MODULE Pairing ------------------------------
(***************************************************************************)
(* How zeros and poles are dealt to second-order sections.  Only the kinds *)
(* matter for whether the deal comes out even: pc, zc count conjugate      *)
(* pairs, pr, zr count real roots.  Which pole is worst and which zero is  *)
(* nearest depends on positions, so here both are arbitrary choices.       *)
(***************************************************************************)
EXTENDS Integers

CONSTANT MaxRoots
VARIABLES mode,               \* "nearest" (digital default) or "minimal" (analog)
          pc, pr, zc, zr,     \* still to deal
          left,               \* sections still to fill
          st                  \* "deal", "done", "stuck"
vars == <<mode, pc, pr, zc, zr, left, st>>

Max(a, b) == IF a < b THEN b ELSE a
Poles == 2 * pc + pr
Zeros == 2 * zc + zr

\* padding with roots at the origin: equal numbers, and an even number
Padded(np, nz) == LET m == Max(np, nz) IN m + (m % 2)

Init ==
  /\ mode \in {"nearest", "minimal"}
  /\ \E c \in 0..(MaxRoots \div 2), r \in 0..MaxRoots, d \in 0..(MaxRoots \div 2), s \in 0..MaxRoots :
       LET np == 2 * c + r
           nz == 2 * d + s
           full == Padded(np, nz) IN
       /\ np <= MaxRoots /\ nz <= MaxRoots /\ np + nz > 0
       /\ mode = "minimal" => nz <= np
       /\ pc = c /\ zc = d
       /\ pr = (IF mode = "nearest" THEN r + full - np ELSE r)
       /\ zr = (IF mode = "nearest" THEN s + full - nz ELSE s)
       /\ left = (IF mode = "nearest" THEN full \div 2 ELSE (np + 1) \div 2)
  /\ st = "deal"

Section == left' = left - 1
LoneReal(r) == r = 0   \* no other real pole left to share the section with

\* a real pole that is the last real one
Lone == /\ pr = 1
        /\ pr' = 0
        /\ IF zr > 0 THEN zr' = zr - 1 /\ st' = st
           ELSE zr' = zr /\ st' = (IF mode = "nearest" THEN "stuck" ELSE st)
        /\ UNCHANGED <<mode, pc, zc>> /\ Section
\* a complex pole when one real pole and one real zero wait for each other
Reserve == /\ pc > 0 /\ (pc - 1 + pr) + 1 = zc + zr /\ pr = 1 /\ zr = 1
           /\ pc' = pc - 1
           /\ IF zc > 0 THEN zc' = zc - 1 /\ st' = st ELSE zc' = zc /\ st' = "stuck"
           /\ UNCHANGED <<mode, pr, zr>> /\ Section
TakeZeros == \/ /\ zc + zr = 0 /\ UNCHANGED <<zc, zr>>
             \/ /\ zc > 0 /\ zc' = zc - 1 /\ zr' = zr
             \/ /\ zr > 0 /\ zr' = (IF zr >= 2 THEN zr - 2 ELSE 0) /\ zc' = zc
TwoReal == /\ pr > 1 /\ pr' = pr - 2 /\ pc' = pc /\ TakeZeros /\ UNCHANGED <<mode, st>> /\ Section
OnePair == /\ pc > 0 /\ ~((pc - 1 + pr) + 1 = zc + zr /\ pr = 1 /\ zr = 1)
           /\ pc' = pc - 1 /\ pr' = pr /\ TakeZeros /\ UNCHANGED <<mode, st>> /\ Section
NoPole == /\ left > 0 /\ Poles = 0 /\ st' = "stuck" /\ UNCHANGED <<mode, pc, pr, zc, zr, left>>
Finish == /\ left = 0
          /\ st' = (IF Poles + Zeros = 0 THEN "done" ELSE "stuck")
          /\ UNCHANGED <<mode, pc, pr, zc, zr, left>>
Next == st = "deal" /\ (IF left = 0 THEN Finish ELSE (Lone \/ Reserve \/ TwoReal \/ OnePair \/ NoPole))
Spec == Init /\ [][Next]_vars

NeverStuck == st # "stuck"
=============================================================================
