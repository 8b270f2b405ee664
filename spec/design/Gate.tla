-------------------------------- MODULE Gate --------------------------------
(***************************************************************************)
(* Which design requests are refused.  A request r has fields via (entry   *)
(* point), n, w (critical frequencies), fs, rp, rs, band, analog, out; the *)
(* optional ones are lists of length 0 or 1.                               *)
(***************************************************************************)
EXTENDS Num

Opt(l, d) == IF l = <<>> THEN d ELSE l[1]
IsAnalog(r) == Opt(r.analog, FALSE)
Family(r) == CASE r.via = "butter" -> "butter" [] r.via = "cheby1" -> "cheby1" [] r.via = "cheby2" -> "cheby2"
               [] OTHER -> Opt(r.fam, "butter")
BandOf(r) == Opt(r.band, IF r.via = "iirfilter" THEN "bandpass" ELSE "lowpass")
OutOf(r) == Opt(r.out, "ba")
\* frequencies relative to the Nyquist frequency
Scaled(r) == IF r.fs = <<>> THEN r.w ELSE [i \in DOMAIN r.w |-> Div(DMul(Two, r.w[i]), r.fs[1])]

Refused(r) ==
  LET w == Scaled(r) IN
  \/ Len(w) > 2
  \/ IsAnalog(r) /\ r.fs # <<>>
  \/ \E i \in DOMAIN w : DLe(w[i], Zero)
  \/ Len(w) = 2 /\ DLe(w[2], w[1])
  \/ r.rp # <<>> /\ DLt(r.rp[1], Zero)
  \/ r.rs # <<>> /\ DLt(r.rs[1], Zero)
  \/ Family(r) = "cheby1" /\ r.rp = <<>>
  \/ Family(r) = "cheby2" /\ r.rs = <<>>
  \/ ~IsAnalog(r) /\ \E i \in DOMAIN w : DLe(One, w[i])
  \/ Len(w) # (IF BandOf(r) \in {"lowpass", "highpass"} THEN 1 ELSE 2)
=============================================================================
