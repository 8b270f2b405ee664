------------------------------- MODULE TrHeap -------------------------------
(* Recorded calls: their books, run through the heap, against the promise.   *)
EXTENDS Heap, TraceKit
None == {"sosfilt_st", "sosfilt_item", "sosfilt_fast32_st", "sosfilt_ifast32_st", "sos_new",
         "mean", "variance", "stdev", "autocorr", "lag_diff", "rmssd", "zscore", "rms_fast32", "autocorr_fast32", "i0",
         "factorial", "factorial2", "factorialk", "comb", "comb_rep", "perm", "stirling2"}
Spectrum == {"convolve", "correlate", "fftconvolve", "resample"}
KindOf(op) == IF op \in None THEN "none" ELSE IF op \in Spectrum THEN "spectrum" ELSE "data"
Frugal2(e, books) == Frugal(KindOf(e.op), e.st # "ok", books, e.given, e.got, e.work)
\* the books follow from the log
Told(a) ==
  a.whole => LET h == Run(a.log) IN
             h.ok /\ h.come = a.n /\ h.peak = a.peak /\ h.now = a.net /\ DOMAIN h.live = {}
Accept(e) ==
  IF e.op = "beside" THEN e.st = "ok"
  ELSE /\ e.st \in {"ok", "panic"}
       /\ Frugal2(e, e.first) /\ Frugal2(e, e.again)
       /\ Told(e.again)
       /\ e.again.net = 0
       \* a table set up by the very first call may stay, a growing memory may not
       /\ (e.nth > 1 => e.first.net = 0)
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
