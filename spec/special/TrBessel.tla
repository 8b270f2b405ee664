------------------------------ MODULE TrBessel ------------------------------
(* Recorded i0 / i0e calls on scalars and, element by element, on            *)
(* collections (which must keep their shape).                                *)
EXTENDS Bessel, TraceKit
BEps(ty) == IF ty = "f32" THEN DTwo(-19) ELSE DTwo(-46)
Rel(got, want, ty) == Within(got, want, DMul(BEps(ty), DAbs(want)))
Far(x) == DLt(DInt(500), DAbs(x))
Elem(op, x, got, ty) ==
  IF op = "i0" THEN Rel(got, I0(x), ty)
  ELSE IF Far(x) THEN /\ DSgn(got) = 1
                      /\ LET a == DAbs(x)
                             w == TMul(Asym(a), Asym(a)) IN
                         Within(TMul(TMul(got, got), DMul(DMul(Two, Pi), a)), w, DMul(DMul(BEps(ty), Two), w))
  ELSE Rel(got, I0e(x), ty)
Accept(e) ==
  CASE e.op \in {"i0", "i0e"} -> e.st = "ok" /\ Elem(e.op, e.x, e.res, e.ty)
    \* a collection: same shape, and each element is the scalar's answer
    [] e.op = "map" -> /\ e.st = "ok" /\ e.rshape = e.shape
                       /\ e.res = e.scalars
    [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
