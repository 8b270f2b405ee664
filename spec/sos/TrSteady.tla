------------------------------ MODULE TrSteady ------------------------------
(* Recorded sosfilt_zi / lfilter_zi calls and constant runs.                 *)
EXTENDS Steady, TraceKit

\* division by the sum of a amplifies rounding by sum|a| / |sum a|
Cond(a) == Div(DSum([i \in DOMAIN a |-> DAbs(a[i])]), DAbs(DSum(a)))
RECURSIVE CondAll(_, _)
CondAll(cs, i) == IF i = 0 THEN One ELSE MaxD(CondAll(cs, i - 1), Cond(SubSeq(cs[i], 4, 6)))
\* sections before a given one scale its input; compare section by section at that scale
RECURSIVE InScale(_, _)
InScale(cs, i) == IF i = 1 THEN One ELSE Mul(InScale(cs, i - 1), Gain(cs[i - 1]))

SosZi(e) ==
  /\ e.st = "ok" /\ e.same
  /\ Len(e.res) = Len(e.coef)
  /\ LET want == SteadyState(e.coef) IN
     \A i \in DOMAIN want :
       LET c == e.coef[i]
           \* rounding of the incoming scale matters through every tap that builds the state
           mag == Mul(DAbs(InScale(e.coef, i)), DMul(DMaxAbs(c), MaxD(One, DAbs(Gain(c)))))
           tol == Mul(DMul(Eps(e.ty), CondAll(e.coef, i)), MaxD(mag, DMaxAbs(want[i]))) IN
       Within(e.res[i][1], want[i][1], tol) /\ Within(e.res[i][2], want[i][2], tol)

LfZi(e) ==
  IF Len(e.b) # Len(e.a) \/ \A i \in DOMAIN e.a : e.a[i] = Zero THEN e.st = "panic"
  ELSE /\ e.st = "ok"
       /\ LET want == LfSteady(e.b, e.a)
              a == NormA(e.a)
              b == NormB(e.b, e.a)
              tol == Mul(DMul(Eps(e.ty), Cond(a)),
                         Mul(MaxD(DMaxAbs(b), DMul(DMaxAbs(a), DAbs(Div(DSum(b), DSum(a))))), DInt(Len(a)))) IN
          SeqWithin(e.res, want, tol)

\* feeding a constant from the scaled steady state gives the constant times the DC gain
ConstRun(e) ==
  /\ e.st = "ok" /\ Len(e.res) = e.n
  /\ LET y == Mul(e.level, TotalGain(e.coef, Len(e.coef)))
         tol == Mul(DMul(DMul(Eps(e.ty), DInt(16)), CondAll(e.coef, Len(e.coef))), MaxD(DAbs(y), DAbs(e.level))) IN
     \A i \in DOMAIN e.res : Within(e.res[i], y, tol)

Accept(e) == CASE e.op = "sosfilt_zi" -> SosZi(e)
               [] e.op = "lfilter_zi" -> LfZi(e)
               [] e.op = "const_run" -> ConstRun(e)
               [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
