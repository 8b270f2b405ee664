------------------------------ MODULE TrStats ------------------------------
(* Recorded statistics calls.                                                *)
EXTENDS Recipes, TraceKit
IsFloat(ty) == ty \in {"f32", "f64"}
Pair(e, n) == e.st = "ok" /\ Len(e.res) = 2 /\ e.res[2] = n /\ IsNum(e.res[1])
Got(e) == e.res[1]

\* the distance of neighbouring numbers next to zero: what a single operation loses there
Grain(ty) == IF ty = "f32" THEN DTwo(-149) ELSE IF ty = "f64" THEN DTwo(-1074) ELSE Zero
Lost(e) == DMul(Grain(e.ty), DInt(8 * (Len(e.y) + 8)))

\* q is s / d truncated towards zero
Truncates(q, s, d) == LET r == DSub(s, DMul(q, d)) IN DLt(DAbs(r), d) /\ DSgn(r) \in {0, DSgn(s)}
MedianOk(e) ==
  /\ Pair(e, Len(e.y))
  /\ IF e.y = <<>> THEN Got(e) = Zero
     ELSE LET m == Middle(e.y) IN
          IF Len(e.y) % 2 = 1 THEN Got(e) = m[1]
          ELSE IF IsFloat(e.ty) THEN Within(DMul(Got(e), Two), DAdd(m[1], m[2]), DAdd(Lost(e), DMul(DMul(Unit(e.ty), DInt(4)), DMaxAbs(m))))
          ELSE Truncates(Got(e), DAdd(m[1], m[2]), Two)
\* deviations are differences of values of size |y|, each rounded once
MadOk(e) == Pair(e, Len(e.y)) /\ Within(Got(e), MadOf(e.y), DAdd(Lost(e), DMul(DMul(Unit(e.ty), DInt(8)), DMaxAbs(e.y))))

N(e) == DInt(Len(e.y))
AbsMean(y) == MeanOf([i \in DOMAIN y |-> DAbs(y[i])])
\* n roundings in the sum, each of size |partial sum| <= sum of |y|
MeanTol(e) == DAdd(Grain(e.ty), DMul(DMul(DMul(Unit(e.ty), Two), DAdd(N(e), Two)), AbsMean(e.y)))
MeanOk(e) ==
  /\ Pair(e, Len(e.y))
  /\ IF e.y = <<>> THEN Got(e) = Zero
     ELSE IF IsFloat(e.ty) THEN Within(Got(e), MeanOf(e.y), MeanTol(e))
     ELSE Truncates(Got(e), DSum(e.y), N(e))
\* relative error of a sum of squares, and the square of the error of the mean
VarTol(e) == DAdd(Lost(e), DAdd(DMul(DMul(DMul(Unit(e.ty), DInt(8)), DAdd(N(e), DInt(8))), VarOf(e.y)),
                  DAdd(DMul(DMul(MeanTol(e), MeanTol(e)), DInt(8)),
                       DMul(DMul(DMul(Unit(e.ty), DInt(8)), MeanTol(e)), DMaxAbs(e.y)))))
VarOk(e) == Pair(e, Len(e.y)) /\ Within(Got(e), VarOf(e.y), VarTol(e))
\* r is the non-negative root of v
RootOf(r, v, tol, ty) == IsNum(r) /\ DSgn(r) # -1 /\ Within(DMul(r, r), v, DAdd(tol, DMul(DMul(Unit(ty), DInt(8)), v)))
StdOk(e) == Pair(e, Len(e.y)) /\ RootOf(Got(e), VarOf(e.y), DMul(VarTol(e), Two), e.ty)
DiffTol(e) == DMul(DMul(Unit(e.ty), DInt(4)), DMaxAbs(e.y))
LagOk(e) == e.st = "ok" /\ SeqWithin(e.res, LagDiff(e.y), DiffTol(e))
MssdTol(e) == DAdd(Lost(e), DMul(DMul(DMul(Unit(e.ty), DInt(16)), DAdd(N(e), DInt(8))), MssdOf(e.y)))
RmssdOk(e) == e.st = "ok" /\ RootOf(e.res, MssdOf(e.y), DAdd(MssdTol(e), DMul(DMul(Unit(e.ty), Unit(e.ty)), DMul(DMaxAbs(e.y), DMaxAbs(e.y)))), e.ty)

\* judged where the spread is not lost in rounding
Spread(e) == e.y # <<>> /\ DLt(DMul(DTwo(8), VarTol(e)), VarOf(e.y))
\* z sd = y - mean, compared through squares and signs
ZOk(e) ==
  /\ e.st = "ok" /\ Len(e.res) = Len(e.y)
  /\ Spread(e) =>
       LET c == Centred(e.y)
           v == VarOf(e.y)
           rel == DMul(Unit(e.ty), DInt(64))
           \* how far a centred value may be off
           off == DAdd(MeanTol(e), DiffTol(e)) IN
       \A i \in DOMAIN c :
         LET want == DMul(c[i], c[i])
             zz == DMul(e.res[i], e.res[i])
             tol == DAdd(DAdd(DMul(rel, want), DMul(DMul(Two, zz), VarTol(e))),
                         DMul(DMul(DInt(4), off), DAdd(DAbs(c[i]), off))) IN
         /\ Within(DMul(zz, v), want, tol)
         /\ (DLt(DMul(Two, off), DAbs(c[i])) => DSgn(e.res[i]) = DSgn(c[i]))
\* z mad = 0.6745 (y - median)
C6745 == DDiv(DInt(6745), DInt(10000), 12)
ModZOk(e) ==
  /\ e.st = "ok" /\ Len(e.res) = Len(e.y)
  /\ LET m == MedianOf(e.y)
         d == MadOf(e.y)
         err == DMul(DMul(Unit(e.ty), DInt(16)), DMaxAbs(e.y)) IN
     (e.y # <<>> /\ DLt(DMul(DTwo(6), err), d)) =>
       \A i \in DOMAIN e.y :
         LET want == R(DMul(C6745, DSub(e.y[i], m)))
             z == R(DMul(e.res[i], d)) IN
         Within(z, want, DAdd(DMul(err, DAdd(One, DAbs(e.res[i]))), DMul(DMul(Unit(e.ty), DInt(16)), DAbs(want))))

\* products of two centred values, each known up to MeanTol
AutoTol(e, n) == DMul(DMul(n, DInt(4)), DAdd(Lost(e),
                  DAdd(DMul(DMul(Unit(e.ty), DAdd(N(e), DInt(8))), VarOf(e.y)),
                       DMul(DAdd(MeanTol(e), DiffTol(e)), DAdd(DMul(Two, DMaxAbs(Centred(e.y))), MeanTol(e))))))
AutoOk(e) ==
  /\ e.st = "ok"
  /\ Spread(e) =>
       Within(DMul(e.res, VarOf(e.y)), Div(AutoSum(e.y, e.k), N(e)),
              DAdd(AutoTol(e, One), DMul(DMul(DAbs(e.res), VarTol(e)), Two)))
FastOk(e) ==
  IF Len(e.y) < e.m + e.skip THEN e.st = "panic"
  ELSE /\ e.st = "ok"
       /\ Within(e.res, VarOf(e.y), VarTol(e))
       /\ SeqWithin(e.after, Centred(e.y), DAdd(MeanTol(e), DiffTol(e)))
       /\ Len(e.x) = e.m
       /\ \A i \in 1..e.m : Within(e.x[i], AutoSum(e.y, e.skip + i - 1), AutoTol(e, N(e)))
RmsOk(e) == e.st = "ok" /\ RootOf(e.res, MeanSq(e.y), DAdd(Lost(e), DMul(DMul(DMul(Unit(e.ty), DInt(4)), N(e)), MeanSq(e.y))), e.ty)

\* long samples by rule: n roundings at the size of the sample
BigTol(e, scale) == DMul(DMul(DMul(Unit(e.ty), DInt(16)), DInt(e.n)), scale)
Top(e) == IF e.kind \in {"step", "alt"} THEN DInt(5) ELSE DInt(e.n)
BigPair(e) == e.st = "ok" /\ Len(e.res) = 2 /\ e.res[2] = e.n /\ IsNum(e.res[1])
SameRuns(got, want) == LET w == SelectSeq(want, LAMBDA r : r[2] > 0) IN
                       Len(got) = Len(w) /\ \A i \in DOMAIN w : got[i] = <<DInt(w[i][1]), w[i][2]>>
BigOk(e) ==
  CASE e.stat = "median" -> BigPair(e) /\ Got(e) = BigMedian(e.kind, e.n)
    [] e.stat = "mad" -> BigPair(e) /\ Got(e) = BigMad(e.n)
    [] e.stat = "mean" -> BigPair(e) /\ Within(Got(e), BigMean(e.kind, e.n), BigTol(e, Top(e)))
    [] e.stat = "variance" -> BigPair(e) /\ Within(Got(e), BigVar(e.kind, e.n), BigTol(e, DMul(Top(e), Top(e))))
    [] e.stat = "stdev" -> BigPair(e) /\ RootOf(Got(e), BigVar(e.kind, e.n), BigTol(e, DMul(Top(e), Top(e))), e.ty)
    [] e.stat = "rmssd" -> e.st = "ok" /\ RootOf(e.res, BigMssd(e.kind, e.n), BigTol(e, BigMssd(e.kind, e.n)), e.ty)
    [] e.stat = "lag_diff" -> e.st = "ok" /\ SameRuns(e.res, Runs(e.kind, e.n))
    [] e.stat = "zscore" ->  \* of the step: below for a third, above for the rest
         /\ e.st = "ok" /\ Len(e.res) = 2
         /\ e.res[1][2] = e.n \div 3 /\ e.res[2][2] = e.n - e.n \div 3
         /\ \A i \in 1..2 : LET c == DSub(DInt(IF i = 1 THEN 0 ELSE 5), BigMean("step", e.n)) IN
              /\ DSgn(e.res[i][1]) = DSgn(c)
              /\ Within(DMul(DMul(e.res[i][1], e.res[i][1]), BigVar("step", e.n)), DMul(c, c), BigTol(e, DInt(25)))
    [] e.stat = "autocorr" -> e.st = "ok" /\ Within(DMul(e.res, DInt(e.n)), AltSum(e.n, e.k), BigTol(e, DInt(e.n)))
    [] e.stat = "autocorr_fast32" ->
         /\ e.st = "ok" /\ Within(e.res, One, BigTol(e, One))
         /\ e.after = [i \in 1..2 |-> <<IF i = 1 THEN One ELSE DInt(-1), e.n \div 2>>]
         /\ \A i \in DOMAIN e.x : Within(e.x[i], AltSum(e.n, e.skip + i - 1), BigTol(e, DInt(e.n)))
    [] e.stat = "rms_fast32" -> e.st = "ok" /\ Within(e.res, One, BigTol(e, One))
Accept(e) == CASE e.op = "big" -> BigOk(e)
               [] e.op = "median" -> MedianOk(e)
               [] e.op = "mad" -> MadOk(e)
               [] e.op = "mean" -> MeanOk(e)
               [] e.op = "variance" -> VarOk(e)
               [] e.op = "stdev" -> StdOk(e)
               [] e.op = "lag_diff" -> LagOk(e)
               [] e.op = "rmssd" -> RmssdOk(e)
               [] e.op = "zscore" -> ZOk(e)
               [] e.op = "mod_zscore" -> ModZOk(e)
               [] e.op = "autocorr" -> AutoOk(e)
               [] e.op = "autocorr_fast32" -> FastOk(e)
               [] e.op = "rms_fast32" -> RmsOk(e)
               [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
