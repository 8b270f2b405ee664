------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* Fourier resampling: the trigonometric polynomial through the samples,   *)
(* cut to the frequencies both lengths can carry, evaluated at n points.   *)
(*                                                                         *)
(* bin k of x contributes (2/N) Re(X_k e^(2 pi i k m / n)) for 0 < k < h,  *)
(* the constant X_0 / N, and the highest bin h = min(N, n) div 2 with a    *)
(* weight of its own.  Growing (or keeping) an even length, that weight    *)
(* has to be 1 for the samples to be interpolated.  For odd lengths, and   *)
(* for the bin exactly at the new Nyquist frequency when shrinking, the    *)
(* library documents that it does not do what SciPy does: the bin may      *)
(* arrive half (as it does) or whole, and nothing else may change.         *)
(***************************************************************************)
EXTENDS Trig
\* X_k = sum x_j e^(-2 pi i k j / N); u = Unity(N)
Bin(x, u, k) ==
  LET n == Len(x) IN
  <<DDot(x, TLCEval([j \in 1..n |-> u[((k * (j - 1)) % n) + 1][1]])),
    DNeg(DDot(x, TLCEval([j \in 1..n |-> u[((k * (j - 1)) % n) + 1][2]])))>>
Bins(x, h) == LET u == Unity(Len(x)) IN TLCEval([k \in 1..(h + 1) |-> Bin(x, u, k - 1)])
\* Re(X e^(2 pi i k m / n)), v = Unity(n)
Wave(X, v, k, m) == LET w == v[((k * m) % Len(v)) + 1] IN DSub(DMul(X[1], w[1]), DMul(X[2], w[2]))
\* sample m with weight top for bin h
Sample(Xs, v, h, m, N, top) ==
  TDiv(DAdd(DSum([k \in 1..(h + 1) |->
                DMul(IF k = h + 1 THEN top ELSE IF k = 1 THEN One ELSE Two, Wave(Xs[k], v, k - 1, m))]), Zero), DInt(N))
ResampleW(x, n, top) ==
  LET N == Len(x)
      h == (IF N < n THEN N ELSE n) \div 2
      Xs == Bins(x, h)
      v == Unity(n) IN
  TLCEval([m \in 1..n |-> Sample(Xs, v, h, m - 1, N, top)])
Tops(N, n) == LET s == IF N < n THEN N ELSE n IN
              IF s = 1 THEN {Zero, One} ELSE IF s % 2 = 0 /\ N <= n THEN {One} ELSE {One, Two}

\* a signal given by its spectrum: components <<k, a, b>>: a cos(2 pi k j / n) + b sin(2 pi k j / n)
Tone(c, n) == LET r == Rotations(c[1], n, n) IN
              TLCEval([j \in 1..n |-> TR(DAdd(DMul(c[2], r[j][1]), DMul(c[3], r[j][2])))])
RECURSIVE Tones(_, _)
Tones(cs, n) == IF cs = <<>> THEN ZeroSeq(n)
                ELSE LET t == Tone(cs[1], n)
                         r == Tones(Tail(cs), n) IN TLCEval([j \in 1..n |-> DAdd(t[j], r[j])])
=============================================================================
