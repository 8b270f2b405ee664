------------------------------- MODULE Savgol -------------------------------
(***************************************************************************)
(* Savitzky-Golay: the least-squares polynomial of degree p through the w  *)
(* samples of a window, its d-th derivative at the window's centre.        *)
(*                                                                         *)
(* The weight of a sample at position t is                                 *)
(*    sum over k of  Phi_k(t) Phi_k^(d)(0) / ||Phi_k||^2 / delta^d         *)
(* for the polynomials Phi_0 .. Phi_p orthogonal on the positions.  The    *)
(* positions are symmetric about 0, so the three-term recurrence has no    *)
(* middle term.  The coefficient list is in the order used for             *)
(* convolution: the first belongs to the newest sample (largest position). *)
(***************************************************************************)
EXTENDS Num, TLC
SP == 14
SR(a) == DRound(a, SP)
SDiv(a, b) == DDiv(a, b, SP)
\* positions, largest first
Pos(w) == TLCEval([j \in 1..w |-> DMul(DInt(w + 1 - 2 * j), DTwo(-1))])
Norm2(v) == DDot(v, v)
\* a polynomial: its values on the positions and its coefficients, lowest first
NextPhi(pos, cur, prev) ==
  LET g == SDiv(Norm2(cur.v), Norm2(prev.v)) IN
  TLCEval([ v |-> TLCEval([j \in DOMAIN pos |-> SR(DSub(DMul(pos[j], cur.v[j]), DMul(g, prev.v[j])))]),
    c |-> TLCEval([i \in DOMAIN cur.c |-> SR(DSub(IF i = 1 THEN Zero ELSE cur.c[i - 1], DMul(g, prev.c[i])))]) ])
RECURSIVE PhisFrom(_, _, _)
PhisFrom(pos, p, acc) == IF Len(acc) > p THEN acc
                         ELSE PhisFrom(pos, p, Append(acc, NextPhi(pos, acc[Len(acc)], acc[Len(acc) - 1])))
\* Phi_0 .. Phi_p
Phis(w, p) ==
  LET pos == Pos(w)
      f0 == [v |-> TLCEval([j \in 1..w |-> One]), c |-> TLCEval([i \in 1..(p + 1) |-> IF i = 1 THEN One ELSE Zero])]
      f1 == [v |-> pos, c |-> TLCEval([i \in 1..(p + 1) |-> IF i = 2 THEN One ELSE Zero])] IN
  IF p = 0 THEN <<f0>> ELSE PhisFrom(pos, p, <<f0, f1>>)
RECURSIVE FactD(_)
FactD(n) == IF n <= 1 THEN One ELSE DMul(DInt(n), FactD(n - 1))
RECURSIVE PowD(_, _)
PowD(x, n) == IF n = 0 THEN One ELSE DMul(x, PowD(x, n - 1))
Coeffs(w, p, d, delta) ==
  IF d > p THEN ZeroSeq(w)
  ELSE LET phis == Phis(w, p)
           s == SDiv(FactD(d), PowD(delta, d))
           q == TLCEval([k \in 1..(p + 1) |-> SDiv(DMul(s, phis[k].c[d + 1]), Norm2(phis[k].v))]) IN
       TLCEval([j \in 1..w |-> SR(DSum([k \in 1..(p + 1) |-> DMul(q[k], phis[k].v[j])]))])
\* the signal continued with its end values, filtered with the reversed coefficients
Nearest(y, h) == [i \in 1..(Len(y) + 2 * h) |-> y[IF i <= h THEN 1 ELSE IF i > Len(y) + h THEN Len(y) ELSE i - h]]
FilterWith(c, y) ==
  LET w == Len(c)
      h == w \div 2
      rc == TLCEval(Rev(c))
      e == TLCEval(Nearest(y, h)) IN
  IF y = <<>> THEN <<>> ELSE [i \in 1..Len(y) |-> DDot(SubSeq(e, i, i + w - 1), rc)]
\* an answer depends on the samples its window sees and on nothing else: how large those are
Reach(w, y) ==
  LET h == w \div 2
      e == TLCEval(Nearest(y, h)) IN
  IF y = <<>> THEN <<>> ELSE [i \in 1..Len(y) |-> DMaxAbs(SubSeq(e, i, i + w - 1))]
=============================================================================
