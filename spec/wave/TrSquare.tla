------------------------------ MODULE TrSquare ------------------------------
EXTENDS Square, TraceKit
\* the phase is reduced with the type's own 2 pi: an error proportional to t
Slack(e, t) == DMul(DMul(Unit(e.ty), DInt(8)), DAdd(DAbs(t), TwoPi))
\* the type's own 2 pi; multiples of it that are exact in the type have phase exactly zero
Whole(e, t, k) == t = DMul(DInt(k), e.period)
Switch(e, t, k) == k \in {-1, 0, 1} /\ e.duty # One /\ t = DAdd(DMul(DInt(k), e.period), DMul(e.duty, e.period))
\* within the first period there is nothing to reduce: only the threshold is rounded
FirstPeriod(e, t) == DLe(Zero, t) /\ DLe(t, DMul(e.period, DSub(One, DMul(DInt(4), Unit(e.ty)))))
FirstOk(e, t, v) == LET th == DMul(e.duty, TwoPi) IN
  Within(t, th, DMul(DMul(DInt(4), Unit(e.ty)), th)) \/ v = Level(t, e.duty)
ElemOk(e, i) ==
  LET t == e.t[i]
      x == DSub(t, DMul(DInt(e.q[i]), TwoPi))
      v == e.res[i]
      s == Slack(e, t) IN
  /\ v \in {One, DInt(-1)}
  /\ IF DLe(TwoPi, s) THEN TRUE                               \* neighbouring times are periods apart
     ELSE DLe(DNeg(s), x) /\ DLe(x, DAdd(TwoPi, s))            \* the hint is the period
  /\ IF DLe(TwoPi, s) THEN TRUE
     ELSE IF e.duty = Zero THEN v = DInt(-1)
     ELSE IF Whole(e, t, e.k[i]) THEN v = One                   \* a period starts here, exactly
     ELSE IF Switch(e, t, e.k[i]) THEN v = DInt(-1)             \* and this is exactly where it switches
     ELSE IF FirstPeriod(e, t) THEN FirstOk(e, t, v)
     ELSE NearEdge(x, e.duty, s) \/ v = Level(x, e.duty)
Accept(e) ==
  IF ~Legal(e.duty) THEN e.st = "panic"
  ELSE /\ e.st = "ok"
       /\ e.rshape = e.shape
       /\ Len(e.res) = Len(e.t)
       /\ Within(e.period, TwoPi, DMul(DInt(4), Unit(e.ty)))
       /\ \A i \in DOMAIN e.t : ElemOk(e, i)
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
