------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The whole road from a design request to a filtered signal, without any  *)
(* of the detours the library takes: the exact textbook filter (prototype, *)
(* band transformation at the pre-warped edges, bilinear map), multiplied  *)
(* out, and its difference equation run over the signal.                   *)
(***************************************************************************)
EXTENDS Magnitude

OpOf(b) == CASE b = "lowpass" -> "lp2lp" [] b = "highpass" -> "lp2hp" [] b = "bandpass" -> "lp2bp" [] b = "bandstop" -> "lp2bs"
\* t: tangents of the critical frequencies; the analog filter has its edges at 2 fs t, fs = 2
Wo(t) == IF Len(t) = 1 THEN DMul(DInt(4), t[1]) ELSE DMul(DInt(4), Sqrt(TMul(t[1], t[2])))
Bw(t) == IF Len(t) = 1 THEN One ELSE DMul(DInt(4), DSub(t[2], t[1]))
Textbook(fam, n, r, band, t) == Bilinear(Apply(OpOf(band), Proto(fam, n, r), Wo(t), Bw(t)), Two)

\* the same filter as the coefficients of a difference equation
Expand(f) == [b |-> TLCEval(ScaleSeq(f.k, Res(Poly(f.z)))), a |-> TLCEval(Res(Poly(f.p)))]
GainAtZero(c) == TDiv(DSum(c.b), DSum(c.a))

\* sum_k a_k y[n-k] = sum_k b_k x[n-k], with x and y at the constants x0 and y0 before the signal begins
Back(s, i, rest) == IF i >= 1 THEN s[i] ELSE rest
Direct(c, xs, x0, y0) ==
  FoldLeft(LAMBDA ys, n :
             Append(ys, TR(DSub(DSum([k \in 1..Len(c.b) |-> DMul(c.b[k], Back(xs, n - k + 1, x0))]),
                                DSum([k \in 1..(Len(c.a) - 1) |-> DMul(c.a[k + 1], Back(ys, n - k, y0))])))),
           <<>>, [n \in 1..Len(xs) |-> n])
AtRest(c, xs) == Direct(c, xs, Zero, Zero)
\* as if the first value had been there forever
Settled(c, xs) == Direct(c, xs, xs[1], TMul(GainAtZero(c), xs[1]))

\* zero phase: reflected ends, there and back again, ends removed
Pad(c) == 3 * Len(c.a)
Reflected(xs, p) ==
  LET n == Len(xs) IN
  TLCEval([i \in 1..(n + (2 * p)) |->
    IF i <= p THEN DSub(DMul(Two, xs[1]), xs[p + 2 - i])
    ELSE IF i <= p + n THEN xs[i - p]
    ELSE DSub(DMul(Two, xs[n]), xs[n - (i - p - n)])])
ZeroPhase(c, xs) ==
  LET p == Pad(c)
      there == Settled(c, Reflected(xs, p))
      back == Rev(Settled(c, TLCEval(Rev(there)))) IN
  SubSeq(back, p + 1, p + Len(xs))

--------------------------------------------------------------------------
(* One way of cutting a real filter into second-order sections: conjugates *)
(* together, what is left over two by two, in the order they come.         *)
Flatness == DTwo(-60)
Quad(c) == <<One, DMul(DInt(-2), c[1]), TR(CAbs2(c))>>
Pair(a, b) == <<One, DNeg(DAdd(a[1], b[1])), TMul(a[1], b[1])>>
Uppers(rs) == SelectSeq(rs, LAMBDA r : DLt(Flatness, r[2]))
Flats(rs) == SelectSeq(rs, LAMBDA r : DLe(DAbs(r[2]), Flatness))
Twos(s) == [i \in 1..((Len(s) + 1) \div 2) |-> IF 2 * i <= Len(s) THEN Pair(s[2 * i - 1], s[2 * i]) ELSE <<One, DNeg(s[2 * i - 1][1]), Zero>>]
Quads(rs) == TLCEval(Map(Quad, Uppers(rs)) \o Twos(Flats(rs)))
Cut(f) == LET z == Quads(f.z)
              p == Quads(f.p) IN
          TLCEval([i \in DOMAIN p |-> (IF i = 1 THEN ScaleSeq(f.k, z[i]) ELSE z[i]) \o p[i]])
=============================================================================
