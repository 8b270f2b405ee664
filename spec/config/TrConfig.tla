------------------------------ MODULE TrConfig ------------------------------
EXTENDS Config, TraceKit
\* a smoothed derivative of order d is of the order of d! max|y| / delta^d before it cancels
RECURSIVE Factor(_, _)
Factor(d, h) == IF d = 0 THEN One ELSE Div(DMul(DInt(d), Factor(d - 1, h)), h)
Scale(e) ==
  IF e.driver = "C18" THEN
    DMul(DMaxAbs(Finite(e.args.y)),
         Factor(IF e.args.deriv = <<>> THEN 0 ELSE e.args.deriv[1], IF e.args.delta = <<>> THEN One ELSE DAbs(e.args.delta[1])))
  ELSE Zero
Accept(e) == Agrees(e.std, e.alloc, e.op, e.ty, Scale(e))
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
