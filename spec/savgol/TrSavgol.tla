------------------------------ MODULE TrSavgol ------------------------------
(* Recorded savgol_coeffs_dyn and savgol_filter_dyn calls.                   *)
EXTENDS Savgol, TraceKit
Delta(e) == IF e.delta = <<>> THEN One ELSE e.delta[1]
Deriv(e) == IF e.deriv = <<>> THEN 0 ELSE e.deriv[1]
\* the least-squares system has condition about h^p; from degree 5 on, the decomposition the
\* library relies on sporadically loses more (documented: "sensitive to f64 and f32")
CondOf(e) == PowD(DInt(IF e.w \div 2 > 1 THEN e.w \div 2 ELSE 1), e.p)
RelTol(e) == IF e.p <= 4 THEN DMul(DMul(Unit(e.ty), DInt(64 + 4 * e.w)), CondOf(e)) ELSE IF e.p <= 6 THEN DTwo(-14) ELSE DTwo(-7)
CTol(e, c) == DMul(RelTol(e), MaxD(DMaxAbs(c), DTwo(-200)))
CoeffsOk(e) ==
  IF e.p >= e.w THEN e.st = "panic"
  ELSE LET c == Coeffs(e.w, e.p, Deriv(e), Delta(e)) IN
       e.st = "ok" /\ SeqWithin(e.res, c, CTol(e, c))
FilterOk(e) ==
  IF e.w % 2 = 0 \/ e.w < e.p + 2 THEN e.st = "panic"
  ELSE LET c == Coeffs(e.w, e.p, Deriv(e), Delta(e)) IN
       /\ e.st = "ok"
       /\ LET want == TLCEval(FilterWith(c, e.y))
              reach == TLCEval(Reach(e.w, e.y))
              unit == DMul(CTol(e, c), DInt(2 * e.w)) IN
          /\ Len(e.res) = Len(want)
          /\ \A i \in 1..Len(want) : Within(e.res[i], want[i], DMul(unit, MaxD(reach[i], DTwo(-200))))
Accept(e) == CASE e.op = "coeffs" -> CoeffsOk(e) [] e.op = "filter" -> FilterOk(e) [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
