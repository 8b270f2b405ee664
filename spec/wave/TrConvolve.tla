----------------------------- MODULE TrConvolve -----------------------------
(* Recorded convolve / fftconvolve / correlate calls on non-empty inputs.    *)
EXTENDS Convolve, TraceKit
\* |got - want| <= 64 u ||a|| ||b||, the accuracy of a transform, compared through squares
Tol2(e) == DMul(DMul(DTwo(12), DMul(Unit(e.ty), Unit(e.ty))), DMul(DDot(e.a, e.a), DDot(e.b, e.b)))
Close(got, want, tol2) == /\ Len(got) = Len(want)
                          /\ \A i \in DOMAIN want : LET d == DSub(got[i], want[i]) IN DLe(DMul(d, d), tol2)
Want(e) == CASE e.op \in {"convolve", "fftconvolve"} -> Convolve(e.a, e.b, e.mode)
             [] e.op = "correlate" -> Correlate(e.a, e.b, e.mode)
Accept(e) == e.st = "ok" /\ Close(e.res, Want(e), Tol2(e))
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
