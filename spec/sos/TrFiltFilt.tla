----------------------------- MODULE TrFiltFilt -----------------------------
(* Recorded sosfiltfilt calls.                                               *)
EXTENDS FiltFilt, TraceKit

Accept(e) ==
  IF Len(e.x) <= EdgeOf(e.coef) THEN e.st = "panic"
  ELSE /\ e.st = "ok"
       /\ Len(e.res) = Len(e.x)
       /\ SeqClose(e.res, FiltFilt(e.coef, e.x), e.ty, DMul(DInt(4), DMaxAbs(e.x)))
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
