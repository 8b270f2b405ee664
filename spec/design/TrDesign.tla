------------------------------ MODULE TrDesign ------------------------------
(* Recorded filter designs and conversions.                                  *)
EXTENDS Magnitude, Gate, TraceKit

U(e, a) == DMul(Unit(e.ty), DInt(a))
Flt(e) == [z |-> e.z, p |-> e.p, k |-> e.k]

--------------------------------------------------------------------------
(* C06: requests are refused exactly when they make no sense.               *)
GateOk(e) ==
  IF Refused(e) THEN e.st = "panic"
  ELSE e.st = "ok" /\ e.res = OutOf(e)

\* two spellings of one request: left-out options against explicit ones, frequencies against
\* a sampling rate.  That they mean the same is itself judged by the decision table.
Meaning(r) == <<Family(r), r.n, BandOf(r), IsAnalog(r), OutOf(r)>>
RippleOf(r) == CASE Family(r) = "butter" -> <<>> [] Family(r) = "cheby1" -> r.rp [] Family(r) = "cheby2" -> r.rs
SameOk(e) ==
  LET a == e.one
      b == e.two IN
  /\ Meaning(a) = Meaning(b) /\ RippleOf(a) = RippleOf(b) /\ ~Refused(a) /\ ~Refused(b)
  /\ SeqWithin(Scaled(a), Scaled(b), U(e, 4))
  /\ a.st = "ok" /\ b.st = "ok"
  /\ a.form = OutOf(a) /\ b.form = OutOf(b)
  /\ SeqClose(a.v, b.v, e.ty, DTwo(-60))

--------------------------------------------------------------------------
(* C07 - C09: magnitude.                                                    *)
An(e) == IsAnalog(e)
\* tan(pi w / 2)
Tan(w) == LET cs == CosSin(TMul(TMul(Pi, w), DTwo(-1))) IN TDiv(cs[2], cs[1])
Wn(e) == IF e.fs = <<>> THEN e.w ELSE [i \in DOMAIN e.w |-> TDiv(DMul(Two, e.w[i]), e.fs[1])]
EdgesOf(e) == TLCEval([i \in DOMAIN e.w |-> IF An(e) THEN e.w[i] ELSE Tan(Wn(e)[i])])
Db(e) == IF e.fam[1] = "cheby1" THEN e.rp[1] ELSE e.rs[1]
Ratio(e) == IF e.fam[1] = "butter" THEN One ELSE Pow10(TDiv(Db(e), DInt(10)))
\* rounding of the critical frequencies, of the bandwidth, and of the ripple
EdgeCond(e, t) == IF An(e) THEN One
                  ELSE LET c(i) == Div(DMul(DMul(Two, Wn(e)[i]), DAdd(One, DMul(t[i], t[i]))), t[i]) IN
                       IF Len(t) = 1 THEN DAdd(One, c(1)) ELSE DAdd(One, MaxD(c(1), c(2)))
WidthCond(t) == IF Len(t) = 1 THEN One ELSE Div(DAdd(t[1], t[2]), DSub(t[2], t[1]))
DbCond(e) == IF e.fam[1] = "butter" THEN One ELSE DAdd(Two, Div(DInt(8), Db(e)))
BaseTol(e, t) == DRound(DMul(DMul(U(e, 64 * (e.n + 1)), DRound(EdgeCond(e, t), 2)), DMul(DRound(WidthCond(t), 2), DRound(DbCond(e), 2))), 3)

\* How far rounding moves a root of the finished filter, in units of the type's: a little of its own
\* size, and, for the two images s and t1 t2 / s a band transformation makes of one root, of the larger
\* image's size (they are p +- sqrt(p^2 - t1 t2)).
Wander(e, t, r) ==
  IF Len(t) = 1 THEN Norm1(r)
  ELSE IF An(e) THEN (IF r = CZero THEN Zero ELSE DAdd(Norm1(r), Div(TMul(t[1], t[2]), Norm1(r))))
  ELSE LET up == Norm1(CAdd(r, COne))
           dn == Norm1(CSub(r, COne)) IN
       IF dn = Zero THEN Norm1(r) ELSE DAdd(Norm1(r), DRound(Div(DMul(TMul(t[1], t[2]), DMul(up, DMul(up, up))), dn), 3))
RECURSIVE SpreadFrom(_, _, _, _, _, _)
SpreadFrom(e, t, pt, rs, i, acc) ==
  IF i > Len(rs) THEN acc
  ELSE LET d == Norm1(CSub(pt[1], CMul(rs[i], pt[2])))
           m == DAdd(Norm1(pt[1]), DMul(Wander(e, t, rs[i]), Norm1(pt[2]))) IN
       IF d = Zero THEN SpreadFrom(e, t, pt, rs, i + 1, acc)
       ELSE SpreadFrom(e, t, pt, rs, i + 1, DRound(DAdd(acc, DDiv(m, d, 2)), 3))
Spread(f, e, t, pt) == SpreadFrom(e, t, pt, f.z \o f.p, 1, DInt(4))
MagAt(f, e, t, r, u, base) ==
  LET pt == PointOf(An(e), u)
      law == Law(e.fam[1], e.n, r, ProtoFreq(BandOf(e), t, u))
      nn == CAbs2(NumAt(f, pt))
      dd == CAbs2(DenAt(f, pt))
      a == TMul(nn, law[2])
      b == TMul(dd, law[1]) IN
  /\ IsNum(a) /\ IsNum(b)
  /\ DLe(DAbs(DSub(a, b)), DAdd(DMul(DMul(base, Spread(f, e, t, pt)), DAdd(a, b)), DMul(DTwo(-90), TMul(dd, law[2]))))
MagnitudeIs(f, e) ==
  LET t == EdgesOf(e)
      r == TLCEval(Ratio(e))
      ps == TLCEval(Points(t))
      base == BaseTol(e, t) IN
  \A i \in DOMAIN ps : MagAt(f, e, t, r, ps[i], base)
NZ(e) == IF e.fam[1] = "cheby2" THEN e.n - (e.n % 2) ELSE 0
\* zeros and poles of the finished filter
Expected(e) ==
  LET double == BandOf(e) \in {"bandpass", "bandstop"}
      np == IF double THEN 2 * e.n ELSE e.n IN
  IF ~An(e) THEN <<np, np>>
  ELSE CASE BandOf(e) = "lowpass" -> <<NZ(e), e.n>> [] BandOf(e) = "highpass" -> <<e.n, e.n>>
         [] BandOf(e) = "bandpass" -> <<NZ(e) + e.n, np>> [] BandOf(e) = "bandstop" -> <<np, np>>
WellFormed(e) == /\ e.st = "ok" /\ IsFilter(Flt(e)) /\ <<Len(e.z), Len(e.p)>> = Expected(e)
MagOk(e) == WellFormed(e) /\ MagnitudeIs(Flt(e), e)

\* Known deviation: Chebyshev II through lp2hp / lp2bs (see Transform).
\* Highpass: the prototype with its zeros misplaced.
Cheb2HpKnown(e) ==
  /\ e.fam[1] = "cheby2" /\ BandOf(e) = "highpass" /\ WellFormed(e)
  /\ LET t == EdgesOf(e)
         wo == IF An(e) THEN t[1] ELSE DMul(DInt(4), t[1])
         g == AsBuiltHp([z |-> e.proto.z, p |-> e.proto.p, k |-> e.proto.k], wo)
         ps == Points(t)
         base == BaseTol(e, t) IN
     \A i \in DOMAIN ps :
       LET pt == PointOf(An(e), ps[i])
           spt == IF An(e) THEN pt ELSE <<Imag(DMul(DInt(4), ps[i][1])), Real(ps[i][2])>>
           a == TMul(CAbs2(NumAt(Flt(e), pt)), CAbs2(DenAt(g, spt)))
           b == TMul(CAbs2(NumAt(g, spt)), CAbs2(DenAt(Flt(e), pt))) IN
       DLe(DAbs(DSub(a, b)), DMul(DMul(base, DAdd(CondAt(Flt(e), pt), CondAt(g, spt))), DAdd(a, b)))
\* Bandstop: gain zero, poles where they should be
Cheb2BsKnown(e) ==
  /\ e.fam[1] = "cheby2" /\ BandOf(e) = "bandstop" /\ e.n >= 2 /\ WellFormed(e) /\ e.k = Zero
  /\ LET t == EdgesOf(e)
         r == Ratio(e)
         ps == Points(t)
         base == BaseTol(e, t)
         den(i) == CAbs2(DenAt(Flt(e), PointOf(An(e), ps[i])))
         law(i) == Law(e.fam[1], e.n, r, ProtoFreq(BandOf(e), t, ps[i]))[2]
         f0 == [z |-> <<>>, p |-> e.p, k |-> One] IN
     \A i \in 2..(Len(ps) - 1) :
       LET a == TMul(den(i), law(2))
           b == TMul(den(2), law(i)) IN
       DLe(DAbs(DSub(a, b)), DMul(DMul(base, DAdd(Spread(f0, e, t, PointOf(An(e), ps[i])), Spread(f0, e, t, PointOf(An(e), ps[2])))), DAdd(a, b)))

--------------------------------------------------------------------------
(* C14: stable, real, zeros in their places.                                *)
NearC(a, b, tol) == DLe(Norm1(CSub(a, b)), tol)
CountNear(zs, c, tol) == Len(SelectSeq(zs, LAMBDA r : NearC(r, c, tol)))
ZerosPlaced(e) ==
  LET tol == U(e, 64) IN
  IF e.fam[1] = "cheby2" THEN
    BandOf(e) \in {"lowpass", "bandpass"} /\ ~An(e) =>
      \* on the unit circle
      \A i \in DOMAIN e.z : Within(CAbs2(e.z[i]), One, U(e, 256))
  ELSE CASE BandOf(e) = "lowpass" -> (~An(e) => CountNear(e.z, Real(DInt(-1)), tol) = e.n)
         [] BandOf(e) = "highpass" -> CountNear(e.z, IF An(e) THEN CZero ELSE COne, tol) = e.n
         [] BandOf(e) = "bandpass" -> IF An(e) THEN CountNear(e.z, CZero, tol) = e.n
                                      ELSE CountNear(e.z, COne, tol) = e.n /\ CountNear(e.z, Real(DInt(-1)), tol) = e.n
         [] BandOf(e) = "bandstop" ->
              IF An(e) THEN \A i \in DOMAIN e.z : /\ e.z[i][1] = Zero
                                                  /\ Within(DMul(e.z[i][2], e.z[i][2]), DMul(e.w[1], e.w[2]), DMul(U(e, 64), DMul(e.w[1], e.w[2])))
              ELSE \A i \in DOMAIN e.z : Within(CAbs2(e.z[i]), One, U(e, 64))
Inside(e) == \A i \in DOMAIN e.p : IF An(e) THEN DSgn(e.p[i][1]) = -1 ELSE DLt(CAbs2(e.p[i]), One)
ShapeOk(e) ==
  /\ WellFormed(e)
  /\ Inside(e)
  /\ Conjugate(e.p, U(e, 32 * (Len(e.p) + 1)))
  /\ (e.fam[1] = "cheby2" /\ BandOf(e) \in {"highpass", "bandstop"}) \/
       /\ Conjugate(e.z, U(e, 32 * (Len(e.z) + 1)))
       /\ DSgn(e.k) = 1
       /\ ZerosPlaced(e)

--------------------------------------------------------------------------
(* C10 - C12: the other forms of the same rational function.                *)
\* b/a (leading coefficient first) is f; digital forms are in powers of 1/z, so they
\* are aligned at the front, analog ones in powers of s, aligned at the back
IsRatio(f, b, a, analog, g) ==
  LET zz == Res(Poly(f.z))
      pp == Res(Poly(f.p))
      l == PolyMul(b, pp)
      r == PolyMul(ScaleSeq(f.k, zz), a)
      az == AbsPoly(f.z)
      ap == AbsPoly(f.p)
      w == ScaleSeq(DAbs(f.k), PolyMul(az, ap))
      n == IF Len(l) < Len(r) THEN Len(r) ELSE Len(l)
      pad(s) == IF analog THEN PadL(s, n) ELSE PadR(s, n)
      \* rounding scale: coefficients of |k| prod(x + |z|) prod(x + |p|), aligned like the products
      wide == IF analog THEN (IF Len(w) > n THEN SubSeq(w, Len(w) - n + 1, Len(w)) ELSE PadL(w, n))
              ELSE (IF Len(w) > n THEN SubSeq(w, 1, n) ELSE PadR(w, n)) IN
  /\ IsNums(b) /\ IsNums(a)
  /\ \A i \in 1..n : Within(pad(l)[i], pad(r)[i], DMul(g, wide[i]))
Lead(s) == LET nz == SelectSeq(s, LAMBDA c : c # Zero) IN IF nz = <<>> THEN Zero ELSE nz[1]
Trim(s) == LET last == {i \in DOMAIN s : s[i] # Zero} IN IF last = {} THEN <<Zero>> ELSE SubSeq(s, 1, CHOOSE i \in last : \A j \in last : j <= i)

\* analog forms carry a common factor s^m when padded; it must be common
BaOk(f, ba, analog, g) ==
  /\ ba.st = "ok"
  /\ Len(ba.b) = Len(ba.a)
  /\ ba.a[1] = One
  /\ IF analog THEN
       LET m == Len(ba.a) - Len(f.p) - 1
           a == SubSeq(ba.a, 1, Len(ba.a) - m)
           b == SubSeq(ba.b, 1, Len(ba.b) - m) IN
       /\ m >= 0
       /\ \A i \in (Len(a) + 1)..Len(ba.a) : ba.a[i] = Zero /\ ba.b[i] = Zero
       /\ IsRatio(f, b, a, TRUE, g)
     ELSE IsRatio(f, ba.b, ba.a, FALSE, g)
Num3(s) == SubSeq(s, 1, 3)
Den3(s) == SubSeq(s, 4, 6)
SosOk(f, s, analog, sections, g) ==
  /\ Len(s) = sections
  /\ \A i \in DOMAIN s : Lead(Den3(s[i])) = One /\ (analog \/ s[i][4] = One)
  /\ \A i \in 2..Len(s) : Lead(Num3(s[i])) = One                   \* the gain is in the first section
  /\ LET b == PolyProd([i \in DOMAIN s |-> Num3(s[i])], Len(s))
         a == PolyProd([i \in DOMAIN s |-> Den3(s[i])], Len(s)) IN
     IsRatio(f, b, a, analog, g)
Half(n) == (n + 1) \div 2
AgreeOk(e) ==
  LET f == Flt(e) IN
  /\ WellFormed(e)
  /\ BaOk(f, e.ba, An(e), U(e, 16 * (Len(e.p) + 2)))
  /\ e.sos.st = "ok"
  /\ SosOk(f, e.sos.s, An(e), IF Len(e.p) = 0 THEN 1 ELSE Half(Len(e.p)), U(e, 128 * (Len(e.p) + 2)))

\* how close the poles of a section come to the unit circle
FromOne(m) == DAbs(DSub(One, m))
Reach(s) == LET b == s[5]
                c == s[6]
                d == DSub(DMul(b, b), DMul(DInt(4), c))
                h(x) == FromOne(DAbs(DMul(DTwo(-1), x))) IN
            IF DSgn(d) = -1 THEN FromOne(Sqrt(c)) ELSE LET q == Sqrt(d)
                                                           u == h(DAdd(b, q))
                                                           v == h(DSub(b, q)) IN IF DLe(u, v) THEN u ELSE v
\* (a missing pole counts as one at the origin: told apart only when all are inside or none is missing)
Minimal(e) == IF e.pairing = <<>> THEN An(e) ELSE e.pairing[1] = "minimal"
Ordered(e, s) ==
  (~Minimal(e) \/ \A i \in DOMAIN e.p : DLt(CAbs2(e.p[i]), One)) =>
  \A i \in 1..(Len(s) - 1) :
    LET u == TLCEval(Reach(s[i]))
        v == TLCEval(Reach(s[i + 1])) IN
    DLe(v, DAdd(u, DMul(DAdd(One, u), IF e.ty = "f32" THEN DTwo(-7) ELSE DTwo(-18))))
Reals(e, rs) == Len(SelectSeq(rs, LAMBDA r : DLe(DAbs(r[2]), DMul(U(e, 4), DAbs(r[1])))))
\* the deals that can come out uneven (MCPairing)
MayStick(e) == Minimal(e) /\ Len(e.z) = Len(e.p) /\ Len(e.p) % 2 = 1 /\ Reals(e, e.p) >= 3 /\ Reals(e, e.z) < Len(e.z)
SosRefused(e) ==
  \/ An(e) /\ ~Minimal(e)
  \/ ~e.closed
  \/ Minimal(e) /\ Len(e.z) > Len(e.p)
ZpkSosOk(e) ==
  IF SosRefused(e) THEN e.st = "panic"
  ELSE /\ e.st = "ok"
       /\ IF Len(e.z) = 0 /\ Len(e.p) = 0
          THEN e.res = << IF An(e) THEN <<Zero, Zero, e.k, Zero, Zero, One>> ELSE <<e.k, Zero, Zero, One, Zero, Zero>> >>
          ELSE LET np == Len(e.p)
                   nz == Len(e.z)
                   n == IF Minimal(e) \/ np > nz THEN np ELSE nz IN
               /\ SosOk(Flt(e), e.res, An(e), Half(n), U(e, 128 * (n + 2)))
               /\ (~An(e) => Ordered(e, e.res))
Zpk2TfOk(e) ==
  LET c == U(e, 16 * (Len(e.z) + Len(e.p) + 2))
      want(rs, k) == PadR(ScaleSeq(k, Res(Poly(rs))), e.order + 1)
      wt(rs, k) == PadR(ScaleSeq(DAbs(k), AbsPoly(rs)), e.order + 1) IN
  /\ e.st = "ok" /\ Len(e.res.b) = e.order + 1 /\ Len(e.res.a) = e.order + 1
  /\ \A i \in 1..(e.order + 1) : /\ Within(e.res.b[i], want(e.z, e.k)[i], DMul(c, wt(e.z, e.k)[i]))
                                 /\ Within(e.res.a[i], want(e.p, One)[i], DMul(c, wt(e.p, One)[i]))
PolyOk(e) ==
  LET want == Poly(e.z)
      w == AbsPoly(e.z)
      c == U(e, 8 * (Len(e.z) + 2)) IN
  /\ e.st = "ok" /\ Len(e.res) = Len(want)
  /\ \A i \in DOMAIN want : IsC(e.res[i]) /\ DLe(Norm1(CSub(e.res[i], want[i])), DMul(c, w[i]))
  /\ (e.real => \A i \in DOMAIN want : e.res[i][2] = Zero)

--------------------------------------------------------------------------
(* C13: transformations.                                                    *)
WoOf(e) == Opt(e.wo, One)
BwOf(e) == Opt(e.bw, One)
\* probe points at the scale of the transformed filter
Probe(e) == LET w == IF e.op = "bilinear" THEN One ELSE WoOf(e)
                c(a, b) == CScale(w, <<TDiv(DInt(a), DInt(16)), TDiv(DInt(b), DInt(16))>>) IN
            << c(3, 13), c(-5, 21), c(17, 7), c(2, -40), c(-29, -3) >>
Improper(e) == Len(e.z) > Len(e.p)
AgreesWith(e, f, via) ==
  LET ps == TLCEval(Probe(e)) IN
  \A i \in DOMAIN ps :
    LET pt == IF via THEN Sub(e.op, ps[i], WoOf(e), BwOf(e)) ELSE At(ps[i])
        tol == DMul(U(e, 256 * (Len(e.p) + 2)), DAdd(CondAt(e.res, At(ps[i])), CondAt(f, pt))) IN
    SameAt(f, e.res, pt, ps[i], tol)
\* every root by itself: single operations on exact operands lose next to nothing, however close to 1 the image comes
BilinearRoots(e, from, to) ==
  LET c == Real(DMul(Two, WoOf(e)))
      hit(s, w) == DLe(Norm1(CSub(CMul(w, CSub(c, s)), CAdd(c, s))), DMul(U(e, 64), Norm1(CAdd(c, s)))) IN
  /\ \A i \in DOMAIN from : \E j \in 1..Len(to) : hit(from[i], to[j])
  /\ \A j \in DOMAIN to : to[j] = CNeg(COne) \/ \E i \in 1..Len(from) : hit(from[i], to[j])
TransformOk(e) ==
  IF Improper(e) THEN e.st = "panic"
  ELSE /\ e.st = "ok" /\ IsFilter(e.res)
       /\ <<Len(e.res.z), Len(e.res.p)>> = Counts(e.op, Len(e.z), Len(e.p))
       /\ AgreesWith(e, Flt(e), TRUE)
       /\ (e.op = "bilinear" => BilinearRoots(e, e.p, e.res.p) /\ BilinearRoots(e, e.z, e.res.z))
TransformKnown(e) ==
  /\ e.op \in {"lp2hp", "lp2bs"} /\ Len(e.z) > 0 /\ ~Improper(e)
  /\ e.st = "ok" /\ IsFilter(e.res)
  /\ <<Len(e.res.z), Len(e.res.p)>> = Counts(e.op, Len(e.z), Len(e.p))
  /\ IF e.op = "lp2hp" THEN AgreesWith(e, AsBuiltHp(Flt(e), WoOf(e)), FALSE)
     ELSE AgreesWith(e, AsBuiltBs(Flt(e), WoOf(e), BwOf(e)), FALSE)

--------------------------------------------------------------------------
(* C31: the prototypes by themselves (edge at 1).                           *)
ProtoTol(e) == DMul(U(e, 32 * (e.n + 2)), DRound(DAdd(DAdd(Two, e.db), Div(DInt(8), e.db)), 2))
\* as lists of roots without order; near roots of the wanted prototype are far apart compared with tol
Matches(got, want, tol) ==
  /\ Len(got) = Len(want)
  /\ \A i \in DOMAIN want : Len(SelectSeq(got, LAMBDA r : NearC(r, want[i], DMul(tol, Norm1(want[i]))))) = 1
\* the gain at zero frequency, as the roots and the gain returned have it: this holds to the type's accuracy however
\* small the ripple is, although the roots themselves are known less well then
DcTol(e) == DMul(U(e, 64 * (e.n + 2)), DAdd(DInt(48), e.db))
RECURSIVE ModSq(_, _)
ModSq(roots, i) == IF i = 0 THEN One ELSE DRound(DMul(ModSq(roots, i - 1), DAdd(DMul(roots[i][1], roots[i][1]), DMul(roots[i][2], roots[i][2]))), 6)
DcOk(e, f, r) ==
  LET num == TLCEval(DMul(DMul(f.k, f.k), ModSq(f.z, Len(f.z))))
      den == TLCEval(ModSq(f.p, Len(f.p)))
      down == IF e.fam[1] = "cheby1" /\ e.n % 2 = 0 THEN r ELSE One IN
  Within(DMul(num, down), den, DMul(DcTol(e), den))
ProtoOk(e) ==
  LET r == TLCEval(Pow10(TDiv(e.db, DInt(10))))
      f == Flt(e)
      tol == ProtoTol(e) IN
  /\ e.st = "ok" /\ IsFilter(f)
  /\ IF e.n = 0 THEN
       /\ f.z = <<>> /\ f.p = <<>>
       /\ LET k2 == DMul(f.k, f.k) IN
          IF e.fam[1] = "cheby1" THEN DSgn(f.k) = 1 /\ Within(DMul(k2, r), One, tol) ELSE f.k = One
     ELSE LET w == TLCEval(Proto(e.fam[1], e.n, r)) IN
       /\ Matches(f.p, w.p, tol) /\ Matches(f.z, w.z, tol)
       /\ Within(f.k, w.k, DMul(DMul(tol, DInt(e.n + 1)), DAbs(w.k)))
       /\ DcOk(e, f, r)
       /\ \A i \in DOMAIN f.p : DSgn(f.p[i][1]) = -1
       /\ \A i \in DOMAIN f.z : f.z[i][1] = Zero

Accept(e) ==
  CASE e.op = "gate" -> GateOk(e)
    [] e.op = "same" -> SameOk(e)
    [] e.op = "mag" -> \/ MagOk(e)
                       \/ Cheb2HpKnown(e) /\ Reject(e, "deviation:cheby2-highpass")
                       \/ Cheb2BsKnown(e) /\ Reject(e, "deviation:cheby2-bandstop")
    [] e.op = "shape" -> ShapeOk(e)
    [] e.op = "proto" -> ProtoOk(e)
    [] e.op = "agree" -> AgreeOk(e)
    [] e.op = "zpk2sos" -> \/ ZpkSosOk(e)
                           \/ MayStick(e) /\ e.st = "panic" /\ Reject(e, "deviation:minimal-pairing-stuck")
    [] e.op = "zpk2tf" -> Zpk2TfOk(e)
    [] e.op = "poly" -> PolyOk(e)
    [] e.op \in {"lp2lp", "lp2hp", "lp2bp", "lp2bs", "bilinear"} ->
         \/ TransformOk(e)
         \/ TransformKnown(e) /\ Reject(e, IF e.op = "lp2hp" THEN "deviation:lp2hp-finite-zeros" ELSE "deviation:lp2bs-finite-zeros")
    [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
