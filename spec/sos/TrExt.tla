------------------------------- MODULE TrExt -------------------------------
(* Recorded odd_ext_dyn and pad calls.                                      *)
EXTENDS Ext, TraceKit

Scale(m) == DMaxAbs(FlattenSeq(m))
MatIs(got, want, ty, m) ==
  LET tol == TLCEval(DMul(Eps(ty), Scale(m))) IN
  /\ Rows(got) = Rows(want)
  /\ \A i \in DOMAIN want : SeqWithin(got[i], want[i], tol)

OddCall(e) ==
  IF e.axis > 1 THEN e.st = "panic"
  ELSE IF e.n > 0 /\ e.n >= e.ext THEN e.st = "panic"
  ELSE e.st = "ok" /\ MatIs(e.res, OddMat(e.x, e.n, e.axis), e.ty, e.x)

\* padlen = -1 stands for the default, three times the taps
Edge(e) == IF e.pad = "None" THEN 0 ELSE IF e.padlen = -1 THEN 3 * e.ntaps ELSE e.padlen
Padded(e) == CASE e.pad = "None" -> e.x
               [] e.pad = "Odd" -> OddMat(e.x, Edge(e), e.axis)
               [] e.pad = "Even" -> EvenMat(e.x, Edge(e), e.axis)
               [] e.pad = "Constant" -> ConstMat(e.x, Edge(e), e.axis)
PadOk(e) ==
  IF e.axis > 1 THEN e.st = "panic"
  ELSE IF Edge(e) >= e.ext THEN e.st = "panic"
  ELSE /\ e.st = "ok" /\ e.edge = Edge(e)
       /\ MatIs(e.res, Padded(e), e.ty, e.x)
\* the library declares Even and Constant but has not implemented them
Unimplemented(e) == e.op = "pad" /\ e.pad \in {"Even", "Constant"} /\ Edge(e) > 0 /\ e.st = "panic"

Accept(e) == CASE e.op = "odd_ext" -> OddCall(e)
               [] e.op = "pad" -> \/ PadOk(e)
                                  \/ Unimplemented(e) /\ Reject(e, "deviation:pad-even-constant")
               [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
