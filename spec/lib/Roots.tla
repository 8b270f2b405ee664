------------------------------- MODULE Roots -------------------------------
(***************************************************************************)
(* Rational functions given by zeros, poles and gain, and polynomials.     *)
(* A filter is [z |-> roots, p |-> roots, k |-> number].  A point of the   *)
(* extended plane is a pair <<A, B>> of complex numbers standing for A/B,  *)
(* so that infinity needs no special treatment.                            *)
(***************************************************************************)
EXTENDS Trig

\* square roots, by Newton's iteration from a power of two above the root
RECURSIVE RootGuess(_, _)
RootGuess(a, k) == IF DLe(a, DTwo(2 * k)) THEN k ELSE RootGuess(a, k + 1)
RECURSIVE RootDown(_, _)
RootDown(a, k) == IF DLt(DTwo(2 * k - 2), a) \/ k < -400 THEN k ELSE RootDown(a, k - 1)
RECURSIVE Newton(_, _, _)
Newton(a, x, n) == IF n = 0 THEN x
                   ELSE LET y == DRound(DMul(DTwo(-1), DAdd(x, DDiv(a, x, TP + 1))), TP + 1) IN
                        IF y = x THEN x ELSE Newton(a, y, n - 1)
Sqrt(a) == IF DSgn(a) # 1 THEN Zero ELSE TR(Newton(a, DTwo(RootDown(a, RootGuess(a, 0))), 14))
CAbs(c) == Sqrt(DAdd(DMul(c[1], c[1]), DMul(c[2], c[2])))
\* principal square root
CSqrt(c) == LET m == CAbs(c)
                a == Sqrt(DMul(DTwo(-1), DAdd(m, DAbs(c[1]))))
                b == IF a = Zero THEN Zero ELSE TDiv(DAbs(c[2]), DMul(Two, a))
                s == IF DSgn(c[2]) = -1 THEN DInt(-1) ELSE One IN
            IF DSgn(c[1]) # -1 THEN <<a, DMul(s, b)>> ELSE <<b, DMul(s, a)>>

\* natural logarithm of 10 and powers of ten
RECURSIVE AtanhInv(_, _, _, _)
AtanhInv(n2, p, k, acc) == IF Tiny(p) THEN acc ELSE AtanhInv(n2, TDiv(p, n2), k + 1, TR(DAdd(acc, TDiv(p, DInt(2 * k + 1)))))
Ln10 == TLCEval(DAdd(DMul(DInt(6), AtanhInv(DInt(9), TDiv(One, DInt(3)), 0, Zero)),
                     DMul(Two, AtanhInv(DInt(81), TDiv(One, DInt(9)), 0, Zero))))
Pow10(x) == IF DSgn(x) = -1 THEN TDiv(One, Exp(TMul(DNeg(x), Ln10))) ELSE Exp(TMul(x, Ln10))

Real(a) == <<a, Zero>>
Imag(a) == <<Zero, a>>
\* max(|re|,|im|) <= |c| <= Norm1(c)
Norm1(c) == DAdd(DAbs(c[1]), DAbs(c[2]))

RECURSIVE CPow(_, _)
CPow(c, n) == IF n = 0 THEN COne ELSE CMul(c, CPow(c, n - 1))
RECURSIVE DPow(_, _)
DPow(c, n) == IF n = 0 THEN One ELSE TMul(c, DPow(c, n - 1))

\* prod (A - r B)
RECURSIVE FactorsFrom(_, _, _, _)
FactorsFrom(pt, rs, i, acc) == IF i > Len(rs) THEN acc
                               ELSE FactorsFrom(pt, rs, i + 1, CMul(acc, CSub(pt[1], CMul(rs[i], pt[2]))))
Factors(pt, rs) == FactorsFrom(pt, rs, 1, COne)
\* numerator and denominator of the filter at a point (more poles than zeros: the rest is at infinity)
NumAt(f, pt) == CScale(f.k, CMul(Factors(pt, f.z), CPow(pt[2], Len(f.p) - Len(f.z))))
DenAt(f, pt) == Factors(pt, f.p)
At(s) == <<s, COne>>

\* how much a relative perturbation of the roots moves the value at a point
RECURSIVE CondFrom(_, _, _, _)
CondFrom(pt, rs, i, acc) ==
  IF i > Len(rs) THEN acc
  ELSE LET d == Norm1(CSub(pt[1], CMul(rs[i], pt[2])))
           m == DAdd(Norm1(pt[1]), DMul(Norm1(rs[i]), Norm1(pt[2]))) IN
       IF d = Zero THEN CondFrom(pt, rs, i + 1, acc)
       ELSE CondFrom(pt, rs, i + 1, DRound(DAdd(acc, DDiv(m, d, 2)), 3))
CondAt(f, pt) == CondFrom(pt, f.z \o f.p, 1, DInt(4))

\* polynomial with the given roots, leading coefficient first
RECURSIVE PolyFrom(_, _, _)
PolyFrom(rs, i, acc) ==
  IF i > Len(rs) THEN acc
  ELSE PolyFrom(rs, i + 1, TLCEval([j \in 1..(Len(acc) + 1) |->
         LET a == IF j <= Len(acc) THEN acc[j] ELSE CZero
             b == IF j > 1 THEN CMul(rs[i], acc[j - 1]) ELSE CZero IN
         <<TR(DSub(a[1], b[1])), TR(DSub(a[2], b[2]))>>]))
Poly(rs) == PolyFrom(rs, 1, <<COne>>)
\* coefficients of prod (x + |r|), the scale of rounding in each coefficient
RECURSIVE AbsPolyFrom(_, _, _)
AbsPolyFrom(rs, i, acc) ==
  IF i > Len(rs) THEN acc
  ELSE AbsPolyFrom(rs, i + 1, TLCEval([j \in 1..(Len(acc) + 1) |->
         DRound(DAdd(IF j <= Len(acc) THEN acc[j] ELSE Zero,
                     IF j > 1 THEN DMul(Norm1(rs[i]), acc[j - 1]) ELSE Zero), 4)]))
AbsPoly(rs) == AbsPolyFrom(rs, 1, <<One>>)
Res(s) == [i \in DOMAIN s |-> s[i][1]]
Ims(s) == [i \in DOMAIN s |-> s[i][2]]
\* product of real polynomials, leading first
PolyMul(a, b) == TLCEval([k \in 1..(Len(a) + Len(b) - 1) |->
  TR(DSum([i \in 1..Len(a) |-> IF k - i + 1 \in 1..Len(b) THEN DMul(a[i], b[k - i + 1]) ELSE Zero]))])
RECURSIVE PolyProd(_, _)
PolyProd(ps, i) == IF i = 0 THEN <<One>> ELSE PolyMul(PolyProd(ps, i - 1), ps[i])
PadR(a, n) == a \o ZeroSeq(n - Len(a))
PadL(a, n) == ZeroSeq(n - Len(a)) \o a
\* closed under conjugation, up to tol in each coefficient
Conjugate(rs, tol) == LET c == Poly(rs)
                          w == AbsPoly(rs) IN \A i \in DOMAIN c : DLe(DAbs(c[i][2]), DMul(tol, w[i]))
IsRoots(rs) == \A i \in DOMAIN rs : IsC(rs[i])
IsFilter(f) == IsNum(f.k) /\ IsRoots(f.z) /\ IsRoots(f.p)
=============================================================================
