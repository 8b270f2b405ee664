------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* One call observed in two build configurations: with the standard        *)
(* library, and in the default configuration without it.  An observation   *)
(* is a status (outcome, shape and everything else that is not a floating- *)
(* point number), lists of numbers, and second-order sections.  The two    *)
(* may differ in the elementary functions (platform or libm), hence in     *)
(* rounding, but not in status, shape or, beyond rounding, in value.       *)
(* Sections may be dealt differently when distances tie, so they are       *)
(* compared by what they multiply out to.                                  *)
(***************************************************************************)
EXTENDS Roots
Floor == DTwo(-200)
\* operations that evaluate elementary functions or solve least-squares problems; the others
\* are the same additions and multiplications in either configuration
Loose == {"mag", "agree", "shape", "same", "gate", "lp2bp", "lp2bs", "zpk2sos", "coeffs", "filter", "design", "savgol", "transform"}
Rel(op, ty) == IF op \in Loose THEN (IF ty = "f32" THEN DTwo(-10) ELSE DTwo(-25))
               ELSE (IF ty = "f32" THEN DTwo(-18) ELSE DTwo(-44))
Finite(l) == SelectSeq(l, IsNum)
ListAgrees(a, b, rel, scale) ==
  /\ Len(a) = Len(b)
  /\ LET tol == DAdd(Floor, DMul(rel, DAdd(scale, DMaxAbs(Finite(a))))) IN
     \A i \in DOMAIN a : IF IsNum(a[i]) THEN IsNum(b[i]) /\ Within(b[i], a[i], tol) ELSE ~IsNum(b[i])
Nums3(s) == [i \in DOMAIN s |-> SubSeq(s[i], 1, 3)]
Dens3(s) == [i \in DOMAIN s |-> SubSeq(s[i], 4, 6)]
SectionsAgree(x, y, rel) ==
  /\ Len(x) = Len(y)
  /\ (x = y \/ (/\ ListAgrees(PolyProd(Nums3(x), Len(x)), PolyProd(Nums3(y), Len(y)), rel, Zero)
                /\ ListAgrees(PolyProd(Dens3(x), Len(x)), PolyProd(Dens3(y), Len(y)), rel, Zero)))
\* scale: what the numbers came from, where they can cancel to nothing
Agrees(x, y, op, ty, scale) ==
  /\ x.st = y.st
  /\ Len(x.res) = Len(y.res)
  /\ \A i \in DOMAIN x.res : ListAgrees(x.res[i], y.res[i], Rel(op, ty), scale)
  /\ SectionsAgree(x.sos, y.sos, Rel(op, ty))
=============================================================================
