------------------------------- MODULE TrPure -------------------------------
(* One event is one call with the answers it got in several histories; the   *)
(* recorded interleaving is projected to that call, which is all the         *)
(* specification's state says about it.                                      *)
EXTENDS Pure, TraceKit
RECURSIVE Accepts(_, _, _)
Accepts(g, seen, i) == IF i > Len(seen) THEN TRUE
                       ELSE Fits(g, 1, seen[i]) /\ Accepts(Learn(g, 1, seen[i]), seen, i + 1)
Accept(e) == "seen" \in DOMAIN e => Accepts(<< >>, e.seen, 1)
TInit == TraceInit /\ Init
TNext == StatelessNext(Accept) /\ UNCHANGED given
=============================================================================
