---------------------------- MODULE DyadicPure ----------------------------
(***************************************************************************)
(* Exact arithmetic on finite "base-B" numbers, B = 2^15.                  *)
(*                                                                         *)
(* Every f32/f64 value is such a number, so whatever the implementation    *)
(* returns is represented EXACTLY; no rounding happens when a value        *)
(* crosses from the code into the specification.                           *)
(*                                                                         *)
(*   D == <<s, q, l1, ..., ln>>  with value  s * SUM_i l_i * B^(q + i - 1) *)
(*                                                                         *)
(* s \in {-1,0,1}; zero is <<0,0>>; otherwise l1 and ln are non-zero, so   *)
(* the representation is canonical and "=" is numerical equality.          *)
(* <<2>> is "not a number" (NaN and the infinities of the code map to it); *)
(* every operation on it yields it and every comparison with it is FALSE.  *)
(*                                                                         *)
(* All intermediate integers stay below 2^31, so TLC can evaluate these    *)
(* definitions as they stand.  Dyadic.tla re-exports them under a Java     *)
(* override for speed; DyadicTest.tla checks override = definition.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 32768
NaN == <<2>>
Zero == <<0, 0>>

IsNum(a) == a[1] \in {-1, 0, 1}

--------------------------------------------------------------------------
\* Magnitudes: little-endian limb sequences, most significant limb non-zero.

RECURSIVE TrimHi(_)
TrimHi(m) == IF m = <<>> THEN m
             ELSE IF m[Len(m)] = 0 THEN TrimHi(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE LoZeros(_, _)
LoZeros(m, i) == IF i > Len(m) THEN Len(m) ELSE IF m[i] # 0 THEN i - 1 ELSE LoZeros(m, i + 1)

Limbs(a) == SubSeq(a, 3, Len(a))

\* canonical number from sign, limb exponent and an arbitrary limb sequence
Norm(s, q, m) ==
  LET h == TrimHi(m) IN
  IF h = <<>> THEN Zero
  ELSE LET z == LoZeros(h, 1) IN <<s, q + z>> \o SubSeq(h, z + 1, Len(h))

Zeros(n) == [i \in 1..n |-> 0]
At(m, i) == IF i >= 1 /\ i <= Len(m) THEN m[i] ELSE 0

\* compare equally aligned magnitudes: -1, 0, 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(m, n, i) == IF i = 0 THEN 0
                    ELSE IF At(m, i) < At(n, i) THEN -1
                    ELSE IF At(m, i) > At(n, i) THEN 1
                    ELSE CmpFrom(m, n, i - 1)
Mx(i, j) == IF i > j THEN i ELSE j
Mn(i, j) == IF i < j THEN i ELSE j
CmpMag(m, n) == CmpFrom(m, n, Mx(Len(m), Len(n)))

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(m, n, i, c, acc) ==
  IF i > Mx(Len(m), Len(n)) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == At(m, i) + At(n, i) + c IN AddFrom(m, n, i + 1, t \div B, Append(acc, t % B))
AddMag(m, n) == AddFrom(m, n, 1, 0, <<>>)

\* m >= n
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(m, n, i, c, acc) ==
  IF i > Len(m) THEN acc
  ELSE LET t == At(m, i) - At(n, i) - c IN
       IF t < 0 THEN SubFrom(m, n, i + 1, 1, Append(acc, t + B))
       ELSE SubFrom(m, n, i + 1, 0, Append(acc, t))
SubMag(m, n) == SubFrom(m, n, 1, 0, <<>>)

RECURSIVE ScaleFrom(_, _, _, _, _)
ScaleFrom(m, d, i, c, acc) ==
  IF i > Len(m) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == m[i] * d + c IN ScaleFrom(m, d, i + 1, t \div B, Append(acc, t % B))
ScaleMag(m, d) == IF d = 0 THEN <<>> ELSE ScaleFrom(m, d, 1, 0, <<>>)

RECURSIVE MulFrom(_, _, _, _)
MulFrom(m, n, j, acc) ==
  IF j > Len(n) THEN acc
  ELSE MulFrom(m, n, j + 1, AddMag(acc, Zeros(j - 1) \o ScaleMag(m, n[j])))
MulMag(m, n) == MulFrom(m, n, 1, <<>>)

\* limbs of a shifted so that the limb exponent is q (q <= a's exponent)
Aligned(a, q) == IF a[1] = 0 THEN <<>> ELSE Zeros(a[2] - q) \o Limbs(a)

--------------------------------------------------------------------------
DNeg(a) == IF ~IsNum(a) THEN NaN ELSE IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Tail(a)
DAbs(a) == IF ~IsNum(a) THEN NaN ELSE IF a[1] = 0 THEN a ELSE <<1>> \o Tail(a)

DAdd(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN NaN
  ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE LET q == Mn(a[2], b[2])
           m == Aligned(a, q)
           n == Aligned(b, q) IN
       IF a[1] = b[1] THEN Norm(a[1], q, AddMag(m, n))
       ELSE LET c == CmpMag(m, n) IN
            IF c = 0 THEN Zero
            ELSE IF c > 0 THEN Norm(a[1], q, SubMag(m, n))
            ELSE Norm(b[1], q, SubMag(n, m))
DSub(a, b) == DAdd(a, DNeg(b))

DMul(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN NaN
  ELSE IF a[1] = 0 \/ b[1] = 0 THEN Zero
  ELSE Norm(a[1] * b[1], a[2] + b[2], MulMag(Limbs(a), Limbs(b)))

\* three-way comparison of numbers (only for numbers)
DSgn(a) == IF IsNum(a) THEN a[1] ELSE 2
DLe(a, b) == IsNum(a) /\ IsNum(b) /\ DSgn(DSub(a, b)) \in {-1, 0}
DLt(a, b) == IsNum(a) /\ IsNum(b) /\ DSgn(DSub(a, b)) = -1

\* from a (32-bit) integer
RECURSIVE NatLimbs(_)
NatLimbs(k) == IF k = 0 THEN <<>> ELSE <<k % B>> \o NatLimbs(k \div B)
DInt(k) == IF k = 0 THEN Zero
           ELSE IF k > 0 THEN Norm(1, 0, NatLimbs(k)) ELSE Norm(-1, 0, NatLimbs(-k))

\* 2^k for any integer k
RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
DTwo(k) == LET r == k % 15 IN <<1, (k - r) \div 15, TwoTo(r)>>

\* keep at most n limbs (truncation towards zero): relative error < B^(1-n)
DRound(a, n) ==
  IF ~IsNum(a) \/ a[1] = 0 \/ Len(a) - 2 <= n THEN a
  ELSE LET d == Len(a) - 2 - n IN Norm(a[1], a[2] + d, SubSeq(a, 3 + d, Len(a)))

\* a / b truncated towards zero to n or n+1 limbs; NaN when b = 0
RECURSIVE DigitIn(_, _, _, _)
DigitIn(r, m, lo, hi) ==         \* largest d in lo..hi with d*m <= r
  IF lo = hi THEN lo
  ELSE LET d == (lo + hi + 1) \div 2 IN
       IF CmpMag(TrimHi(ScaleMag(m, d)), r) <= 0 THEN DigitIn(r, m, d, hi) ELSE DigitIn(r, m, lo, d - 1)
RECURSIVE LongDiv(_, _, _, _, _)
\* num: remaining limbs, most significant last; rem: current remainder; out: quotient, little-endian
LongDiv(num, i, m, rem, out) ==
  IF i = 0 THEN out
  ELSE LET r == TrimHi(<<num[i]>> \o rem)
           d == DigitIn(r, m, 0, B - 1) IN
       LongDiv(num, i - 1, m, TrimHi(SubMag(r, ScaleMag(m, d))), <<d>> \o out)
DDiv(a, b, n) ==
  IF ~IsNum(a) \/ ~IsNum(b) \/ b[1] = 0 THEN NaN
  ELSE IF a[1] = 0 THEN Zero
  ELSE LET la == Limbs(a)
           lb == Limbs(b)
           sh == Mx(0, n + Len(lb) - Len(la))
           num == Zeros(sh) \o la IN
       Norm(a[1] * b[1], a[2] - sh - b[2], LongDiv(num, Len(num), lb, <<>>, <<>>))

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN Zero ELSE DAdd(SumTo(s, k - 1), s[k])
DSum(s) == SumTo(s, Len(s))

RECURSIVE DotTo(_, _, _)
DotTo(s, t, k) == IF k = 0 THEN Zero ELSE DAdd(DotTo(s, t, k - 1), DMul(s[k], t[k]))
DDot(s, t) == DotTo(s, t, Mn(Len(s), Len(t)))

\* largest magnitude in a sequence (Zero when empty, NaN if any entry is)
RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(s, k) == IF k = 0 THEN Zero
                  ELSE LET r == MaxAbsTo(s, k - 1)
                           x == DAbs(s[k]) IN
                       IF ~IsNum(r) \/ ~IsNum(x) THEN NaN ELSE IF DLt(r, x) THEN x ELSE r
DMaxAbs(s) == MaxAbsTo(s, Len(s))
=============================================================================
