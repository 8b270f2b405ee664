----------------------------- MODULE Magnitude -----------------------------
(***************************************************************************)
(* What each filter family promises about |H|^2.                           *)
(*                                                                         *)
(* Frequencies are measured as u = tan(w/2) for a digital filter (the      *)
(* point z = (1 + iu)/(1 - iu)) and u = w for an analog one (s = iu), and  *)
(* given as <<un, ud>> = un/ud.  t is the list of critical frequencies on  *)
(* the same scale.  x = xn/xd is the frequency as the lowpass prototype    *)
(* sees it, edge at 1.                                                     *)
(***************************************************************************)
EXTENDS Transform

PointOf(analog, u) == IF analog THEN <<Imag(u[1]), Real(u[2])>>
                      ELSE << <<u[2], u[1]>>, <<u[2], DNeg(u[1])>> >>

ProtoFreq(btype, t, u) ==
  CASE btype = "lowpass" -> <<u[1], TMul(t[1], u[2])>>
    [] btype = "highpass" -> <<TMul(t[1], u[2]), u[1]>>
    [] btype = "bandpass" -> <<TR(DSub(DMul(u[1], u[1]), DMul(TMul(t[1], t[2]), DMul(u[2], u[2])))), TMul(TMul(u[1], u[2]), DSub(t[2], t[1]))>>
    [] btype = "bandstop" -> <<TMul(TMul(u[1], u[2]), DSub(t[2], t[1])), TR(DSub(DMul(u[1], u[1]), DMul(TMul(t[1], t[2]), DMul(u[2], u[2]))))>>

\* xd^n T_n(xn / xd), the Chebyshev polynomial made homogeneous
RECURSIVE ChebStep(_, _, _, _, _)
ChebStep(n, xn, xd2, a, b) == IF n = 1 THEN b ELSE ChebStep(n - 1, xn, xd2, b, TR(DSub(DMul(DMul(Two, xn), b), DMul(xd2, a))))
Cheb(n, xn, xd) == IF n = 0 THEN One ELSE ChebStep(n, xn, TMul(xd, xd), One, xn)

\* numerator and denominator of |H|^2; r is 10^(ripple/10)
Law(fam, n, r, x) ==
  LET xn == x[1]
      xd == x[2]
      sq(v) == TMul(v, v) IN
  CASE fam = "butter" -> LET d == sq(DPow(xd, n)) IN <<d, DAdd(d, sq(DPow(xn, n)))>>
    [] fam = "cheby1" -> LET d == sq(DPow(xd, n)) IN
                         <<d, DAdd(d, TMul(DSub(r, One), sq(Cheb(n, xn, xd))))>>
    \* 1 / (1 + (r - 1) / T_n(1/x)^2)
    [] fam = "cheby2" -> LET d == sq(Cheb(n, xd, xn)) IN
                         <<d, DAdd(d, TMul(DSub(r, One), sq(DPow(xn, n))))>>

--------------------------------------------------------------------------
(* Prototypes (edge at 1), for the model of the design pipeline.           *)
Theta(n, i) == TDiv(TMul(Pi, DInt((2 * i) - n - 1)), DInt(2 * n))     \* i = 1..n
ButterProto(n) == [z |-> <<>>, p |-> TLCEval([i \in 1..n |-> CNeg(CosSin(Theta(n, i)))]), k |-> One]
\* e^mu with mu = asinh(v)/n, by bisection-free means: the n-th root of v + sqrt(v^2+1)
RECURSIVE NthRoot(_, _, _, _)
NthRoot(a, n, x, it) == IF it = 0 THEN x
  ELSE NthRoot(a, n, TDiv(DAdd(TMul(DInt(n - 1), x), TDiv(a, DPow(x, n - 1))), DInt(n)), it - 1)
\* started just above the root
RECURSIVE Above(_, _, _)
Above(a, n, k) == IF DLe(a, DTwo(k * n)) THEN DTwo(k) ELSE Above(a, n, k + 1)
ExpMu(v, n) == LET a == DAdd(v, Sqrt(DAdd(DMul(v, v), One))) IN NthRoot(a, n, Above(a, n, 0), 40)
SinhCosh(v, n) == LET e == ExpMu(v, n)
                      f == TDiv(One, e) IN <<DMul(DTwo(-1), DSub(e, f)), DMul(DTwo(-1), DAdd(e, f))>>
\* r = 10^(rp/10)
Cheb1Proto(n, r) ==
  LET sc == TLCEval(SinhCosh(TDiv(One, Sqrt(DSub(r, One))), n))
      p == TLCEval([i \in 1..n |-> LET cs == CosSin(Theta(n, i)) IN <<DNeg(TMul(sc[1], cs[1])), DNeg(TMul(sc[2], cs[2]))>>])
      k == CProd(Map(CNeg, p), n)[1] IN
  [z |-> <<>>, p |-> p, k |-> IF n % 2 = 0 THEN TDiv(k, Sqrt(r)) ELSE k]
Cheb2Proto(n, r) ==
  LET sc == TLCEval(SinhCosh(Sqrt(DSub(r, One)), n))
      ms == SelectSeq([i \in 1..n |-> i], LAMBDA i : (2 * i) - n - 1 # 0)
      z == TLCEval([j \in 1..Len(ms) |-> Imag(TDiv(One, Sin(Theta(n, ms[j]))))])
      p == TLCEval([i \in 1..n |-> LET cs == CosSin(Theta(n, i)) IN
                      CDiv(COne, <<DNeg(TMul(sc[1], cs[1])), DNeg(TMul(sc[2], cs[2]))>>)])
      k == CDiv(CProd(Map(CNeg, p), Len(p)), CProd(Map(CNeg, z), Len(z)))[1] IN
  [z |-> z, p |-> p, k |-> k]
Proto(fam, n, r) == CASE fam = "butter" -> ButterProto(n) [] fam = "cheby1" -> Cheb1Proto(n, r) [] fam = "cheby2" -> Cheb2Proto(n, r)

\* frequencies worth looking at: zero, around each edge, between the edges, infinity
F(t, a, b) == <<TMul(t, TDiv(DInt(a), DInt(b))), One>>
Points(t) ==
  IF Len(t) = 1 THEN << <<Zero, One>>, F(t[1], 1, 8), F(t[1], 1, 2), F(t[1], 7, 8), F(t[1], 1, 1), F(t[1], 9, 8), F(t[1], 2, 1), F(t[1], 8, 1), <<One, Zero>> >>
  ELSE << <<Zero, One>>, F(t[1], 1, 8), F(t[1], 3, 4), F(t[1], 1, 1),
          <<TDiv(DAdd(DMul(DInt(3), t[1]), t[2]), DInt(4)), One>>, <<DMul(DTwo(-1), DAdd(t[1], t[2])), One>>,
          <<TMul(DMul(Two, t[1]), t[2]), DAdd(t[1], t[2])>>,
          F(t[2], 1, 1), F(t[2], 5, 4), F(t[2], 8, 1), <<One, Zero>> >>
=============================================================================
