----------------------------- MODULE TrPipeline -----------------------------
(* Recorded runs from request to filtered signal.                            *)
EXTENDS Pipeline, Gate, TraceKit

Tan(w) == LET cs == CosSin(TMul(TMul(Pi, w), DTwo(-1))) IN TDiv(cs[2], cs[1])
Wn(e) == IF e.fs = <<>> THEN e.w ELSE [i \in DOMAIN e.w |-> TDiv(DMul(Two, e.w[i]), e.fs[1])]
EdgesOf(e) == TLCEval([i \in DOMAIN e.w |-> Tan(Wn(e)[i])])
Db(e) == IF Family(e) = "cheby1" THEN e.rp[1] ELSE e.rs[1]
Ratio(e) == IF Family(e) = "butter" THEN One ELSE Pow10(TDiv(Db(e), DInt(10)))
Book(e) == Expand(TLCEval(Textbook(Family(e), e.n, Ratio(e), BandOf(e), EdgesOf(e))))

Tol(e) == IF e.ty = "f32" THEN DTwo(-8) ELSE DTwo(-30)
RunOk(e, r, at_rest, zero_phase) ==
  LET want == IF r.ep = "filtfilt" THEN zero_phase ELSE at_rest IN
  /\ r.st = "ok"
  /\ SeqWithin(r.y, want, DMul(Tol(e), DMaxAbs(e.x)))
\* the sections come at rest
Fresh(e) == \A i \in DOMAIN e.z : e.z[i] = <<Zero, Zero>>
PipeOk(e) ==
  LET c == Book(e)
      direct == TLCEval(AtRest(c, e.x))
      phase == IF \E i \in DOMAIN e.runs : e.runs[i].ep = "filtfilt" THEN TLCEval(ZeroPhase(c, e.x)) ELSE <<>> IN
  /\ ~Refused(e) /\ e.st = "ok" /\ Fresh(e)
  /\ Len(e.z) = Len(c.a) \div 2
  /\ \A i \in DOMAIN e.runs : IF RunOk(e, e.runs[i], direct, phase) THEN TRUE ELSE PrintT(<<"by", e.runs[i].ep>>) /\ FALSE
Accept(e) == e.op = "pipe" /\ PipeOk(e)
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
