----------------------------- MODULE TrResample -----------------------------
(* Recorded resample calls: arbitrary signals of moderate length, and long   *)
(* signals given by their spectrum.                                          *)
EXTENDS Resample, TraceKit
RsEps(ty) == IF ty = "f32" THEN DTwo(-14) ELSE DTwo(-42)
Scale(x) == MaxD(DMaxAbs(x), DTwo(-100))
Direct(e) == LET tol == DMul(RsEps(e.ty), Scale(e.x)) IN
  /\ e.st = "ok" /\ Len(e.res) = e.n
  /\ \E w \in Tops(Len(e.x), e.n) : SeqWithin(e.res, ResampleW(e.x, e.n, w), tol)
\* the driver's tones are what it says they are, and so is the answer
Probe(e) == LET tol == DMul(RsEps(e.ty), Scale(e.x)) IN
  /\ SeqWithin(e.x, Tones(e.comps, Len(e.x)), tol)
  /\ e.st = "ok" /\ Len(e.res) = e.n
  /\ SeqWithin(e.res, Tones(e.comps, e.n), DMul(tol, DInt(8)))
Accept(e) == CASE e.op = "resample" -> Direct(e) [] e.op = "probe" -> Probe(e) [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
