---------------------------- MODULE TrCompanion ----------------------------
(* Recorded companion_dyn calls; m is the declared length.                   *)
EXTENDS Companion, TraceKit
Tol(e, w) == IF e.ty \in {"f32", "f64"} THEN DMul(DMul(Unit(e.ty), Two), DAbs(w)) ELSE Zero
Accept(e) ==
  IF Len(e.a) > e.m \/ e.m < 2 \/ e.a = <<>> THEN e.st = "panic"   \* the data must fit the declared length
  ELSE Len(e.a) = e.m =>
    /\ e.st = "ok"
    /\ LET w == Companion(e.a) IN
       /\ Len(e.res) = Len(w)
       /\ \A i \in DOMAIN w : /\ Len(e.res[i]) = Len(w)
                              /\ \A j \in DOMAIN w : Within(e.res[i][j], w[i][j], Tol(e, w[i][j]))
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
