-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* pi, exponential and circular functions by their power series, on exact  *)
(* numbers rounded to TP limbs (TP * 15 bits) per operation.  Complex      *)
(* numbers are pairs <<re, im>>.                                           *)
(***************************************************************************)
EXTENDS Num, TLC

TP == 11
TR(a) == DRound(a, TP)
TMul(a, b) == DRound(DMul(a, b), TP)
TDiv(a, b) == DDiv(a, b, TP)
Tiny(a) == DLe(DAbs(a), DTwo(-165))

\* sum of a series: term t, step k; Step(t, k) is the next term
\* exp(r) = sum r^k / k!, |r| <= 1
RECURSIVE ExpSum(_, _, _, _)
ExpSum(r, t, k, acc) == IF Tiny(t) THEN acc ELSE ExpSum(r, TDiv(TMul(t, r), DInt(k)), k + 1, TR(DAdd(acc, t)))
RECURSIVE SquareTimes(_, _)
SquareTimes(v, k) == IF k = 0 THEN v ELSE SquareTimes(TMul(v, v), k - 1)
\* halvings that bring |x| to at most 1/16
RECURSIVE Halvings(_, _)
Halvings(x, k) == IF DLe(DAbs(x), DTwo(k - 4)) THEN k ELSE Halvings(x, k + 1)
Exp(x) == LET k == Halvings(x, 0) IN SquareTimes(ExpSum(DMul(x, DTwo(-k)), One, 1, Zero), k)

\* atan(1/n) = sum (-1)^k / ((2k+1) n^(2k+1)); p = 1 / n^(2k+1)
RECURSIVE AtanInv(_, _, _, _)
AtanInv(n2, p, k, acc) ==
  IF Tiny(p) THEN acc
  ELSE LET t == TDiv(p, DInt(2 * k + 1)) IN
       AtanInv(n2, TDiv(p, n2), k + 1, TR(IF k % 2 = 0 THEN DAdd(acc, t) ELSE DSub(acc, t)))
\* Machin
Pi == TLCEval(DMul(DInt(4), DSub(DMul(DInt(4), AtanInv(DInt(25), TDiv(One, DInt(5)), 0, Zero)),
                         AtanInv(DInt(239 * 239), TDiv(One, DInt(239)), 0, Zero))))

\* sin and cos for any argument: halve until small, then double the angle
RECURSIVE SinSum(_, _, _, _)
SinSum(r2, t, k, acc) == IF Tiny(t) THEN acc
                         ELSE SinSum(r2, DNeg(TDiv(TMul(t, r2), DInt((k + 1) * (k + 2)))), k + 2, TR(DAdd(acc, t)))
RECURSIVE Doubled(_, _)
Doubled(cs, k) == IF k = 0 THEN cs
                  ELSE LET c == cs[1]
                           s == cs[2] IN
                       Doubled(<<TR(DSub(One, DMul(Two, DMul(s, s)))), TMul(DMul(Two, s), c)>>, k - 1)
\* <<cos x, sin x>>
CosSin(x) ==
  LET k == Halvings(x, 0)
      r == DMul(x, DTwo(-k))
      r2 == TMul(r, r) IN
  Doubled(<<SinSum(r2, One, 0, Zero), SinSum(r2, r, 1, Zero)>>, k)
Cos(x) == CosSin(x)[1]
Sin(x) == CosSin(x)[2]

CMul(a, b) == <<TR(DSub(DMul(a[1], b[1]), DMul(a[2], b[2]))), TR(DAdd(DMul(a[1], b[2]), DMul(a[2], b[1])))>>
CAdd(a, b) == <<DAdd(a[1], b[1]), DAdd(a[2], b[2])>>
CSub(a, b) == <<DSub(a[1], b[1]), DSub(a[2], b[2])>>
CScale(c, a) == <<TMul(c, a[1]), TMul(c, a[2])>>
COne == <<One, Zero>>
CZero == <<Zero, Zero>>
CNeg(a) == <<DNeg(a[1]), DNeg(a[2])>>
Conj(a) == <<a[1], DNeg(a[2])>>
CAbs2(a) == TR(DAdd(DMul(a[1], a[1]), DMul(a[2], a[2])))
CDiv(a, b) == CScale(TDiv(One, CAbs2(b)), CMul(a, Conj(b)))
IsC(a) == IsNum(a[1]) /\ IsNum(a[2])

\* e^(2 pi i k / n) for k = 0 .. n-1, at index k + 1
Unity(n) == TLCEval([k \in 1..n |-> CosSin(TDiv(DMul(DMul(Two, Pi), DInt(k - 1)), DInt(n)))])
RECURSIVE PowersUpTo(_, _, _)
\* acc = w^0 .. w^(m-1) and wm = w^m: twice as many at a time
PowersUpTo(wm, n, acc) ==
  IF Len(acc) >= n THEN SubSeq(acc, 1, n)
  ELSE PowersUpTo(CMul(wm, wm), n, acc \o TLCEval([i \in 1..Len(acc) |-> CMul(acc[i], wm)]))
\* w^0 .. w^(n-1) for w = e^(2 pi i k / n)
Rotations(k, n, count) == PowersUpTo(CosSin(TDiv(DMul(DMul(Two, Pi), DInt(k)), DInt(n))), count, <<COne>>)
=============================================================================
