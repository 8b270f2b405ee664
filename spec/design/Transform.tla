----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Frequency transformations as substitutions: the new filter at a point   *)
(* is the old one at the substituted point.                                *)
(***************************************************************************)
EXTENDS Roots

Sub(op, s, wo, bw) ==
  CASE op = "lp2lp" -> <<s, Real(wo)>>
    [] op = "lp2hp" -> <<Real(wo), s>>
    [] op = "lp2bp" -> <<CAdd(CMul(s, s), Real(DMul(wo, wo))), CScale(bw, s)>>
    [] op = "lp2bs" -> <<CScale(bw, s), CAdd(CMul(s, s), Real(DMul(wo, wo)))>>
    [] op = "bilinear" -> <<CScale(DMul(Two, wo), CSub(s, COne)), CAdd(s, COne)>>    \* wo is the sampling rate

\* how many zeros and poles the result has
Counts(op, nz, np) ==
  CASE op = "lp2lp" -> <<nz, np>>
    [] op \in {"lp2hp", "bilinear"} -> <<np, np>>
    [] op = "lp2bp" -> <<nz + np, 2 * np>>
    [] op = "lp2bs" -> <<2 * np, 2 * np>>

\* g is f after op, seen at point s
SameAt(f, g, pt, s, tol) ==
  LET l == CMul(NumAt(f, pt), DenAt(g, At(s)))
      r == CMul(NumAt(g, At(s)), DenAt(f, pt)) IN
  DLe(Norm1(CSub(l, r)), DMul(tol, DAdd(Norm1(l), Norm1(r))))

--------------------------------------------------------------------------
(* The transformations on zeros, poles and gain themselves, as a model of  *)
(* the pipeline; MCDesign checks that they satisfy the substitutions.      *)
Map(F(_), s) == TLCEval([i \in DOMAIN s |-> F(s[i])])
RECURSIVE CProd(_, _)
CProd(s, i) == IF i = 0 THEN COne ELSE CMul(CProd(s, i - 1), s[i])
Deg(f) == Len(f.p) - Len(f.z)
Reps(c, n) == [i \in 1..n |-> c]
Lp2Lp(f, wo) == [z |-> Map(LAMBDA r : CScale(wo, r), f.z), p |-> Map(LAMBDA r : CScale(wo, r), f.p),
                 k |-> TMul(f.k, DPow(wo, Deg(f)))]
InvGain(f) == TMul(f.k, CDiv(CProd(Map(CNeg, f.z), Len(f.z)), CProd(Map(CNeg, f.p), Len(f.p)))[1])
Lp2Hp(f, wo) == [z |-> Map(LAMBDA r : CDiv(Real(wo), r), f.z) \o Reps(CZero, Deg(f)),
                 p |-> Map(LAMBDA r : CDiv(Real(wo), r), f.p), k |-> InvGain(f)]
Split(rs, wo) == LET q(r) == CSqrt(CSub(CMul(r, r), Real(DMul(wo, wo)))) IN
                 Map(LAMBDA r : CAdd(r, q(r)), rs) \o Map(LAMBDA r : CSub(r, q(r)), rs)
Lp2Bp(f, wo, bw) == LET h == DMul(bw, DTwo(-1)) IN
                    [z |-> Split(Map(LAMBDA r : CScale(h, r), f.z), wo) \o Reps(CZero, Deg(f)),
                     p |-> Split(Map(LAMBDA r : CScale(h, r), f.p), wo),
                     k |-> TMul(f.k, DPow(bw, Deg(f)))]
Lp2Bs(f, wo, bw) == LET h == DMul(bw, DTwo(-1)) IN
                    [z |-> Split(Map(LAMBDA r : CDiv(Real(h), r), f.z), wo) \o Reps(Imag(wo), Deg(f)) \o Reps(Imag(DNeg(wo)), Deg(f)),
                     p |-> Split(Map(LAMBDA r : CDiv(Real(h), r), f.p), wo), k |-> InvGain(f)]
Bilinear(f, fs) == LET c == Real(DMul(Two, fs))
                       m(r) == CDiv(CAdd(c, r), CSub(c, r))
                       d(r) == CSub(c, r) IN
                   [z |-> Map(m, f.z) \o Reps(Real(DInt(-1)), Deg(f)), p |-> Map(m, f.p),
                    k |-> TMul(f.k, CDiv(CProd(Map(d, f.z), Len(f.z)), CProd(Map(d, f.p), Len(f.p)))[1])]
Apply(op, f, wo, bw) ==
  CASE op = "lp2lp" -> Lp2Lp(f, wo) [] op = "lp2hp" -> Lp2Hp(f, wo)
    [] op = "lp2bp" -> Lp2Bp(f, wo, bw) [] op = "lp2bs" -> Lp2Bs(f, wo, bw)
    [] op = "bilinear" -> Bilinear(f, wo)

--------------------------------------------------------------------------
(* Known deviation: what the library computes instead for filters with     *)
(* finite zeros (its tests pin these values).                              *)
AsBuiltHp(f, wo) == [Lp2Hp(f, wo) EXCEPT
  !.z = Map(LAMBDA r : CMul(CDiv(Real(DMul(DInt(-2), wo)), r), Imag(DInt(-1))), f.z) \o Reps(CZero, Deg(f)),
  !.k = TMul(f.k, CDiv(CProd(Map(LAMBDA r : CSub(r, COne), f.z), Len(f.z)), CProd(Map(CNeg, f.p), Len(f.p)))[1])]
AsBuiltBs(f, wo, bw) ==
  LET re(r) == CDiv(Imag(bw), r)[1]
      q(r) == Sqrt(MaxD(Zero, DSub(DMul(wo, wo), DMul(re(r), re(r))))) IN
  [Lp2Bs(f, wo, bw) EXCEPT
    !.z = Map(LAMBDA r : <<re(r), q(r)>>, f.z) \o Map(LAMBDA r : <<re(r), DNeg(q(r))>>, f.z)
          \o Reps(Imag(wo), Deg(f)) \o Reps(Imag(DNeg(wo)), Deg(f)),
    !.k = TDiv(TMul(f.k, CProd(Map(LAMBDA r : Real(r[1]), f.z), Len(f.z))[1]), CProd(Map(CNeg, f.p), Len(f.p))[1])]
=============================================================================
