------------------------------ MODULE MCDesign ------------------------------
(***************************************************************************)
(* The design pipeline as a state machine: prototype, band transformation, *)
(* discretisation.  Checked: every step is the substitution it stands for, *)
(* and the finished filter has the magnitude its family promises, is       *)
(* stable, real, and has the expected zeros.                               *)
(***************************************************************************)
EXTENDS Magnitude
CONSTANTS MaxOrder
VARIABLES stage, cfg, filt, prev
vars == <<stage, cfg, filt, prev>>

Fams == {"butter", "cheby1", "cheby2"}
Bands == {"lowpass", "highpass", "bandpass", "bandstop"}
None == [z |-> <<>>, p |-> <<>>, k |-> One]
R1 == Pow10(TDiv(DInt(3), DInt(20)))     \* 1.5 dB
R2 == Pow10(DInt(3))                     \* 30 dB
Ripple(fam) == IF fam = "cheby1" THEN R1 ELSE R2
T1 == <<DTwo(-2), DInt(2)>>
Edges(b) == IF b \in {"lowpass", "highpass"} THEN << <<DTwo(-2)>>, <<DInt(2)>> >> ELSE << <<DTwo(-2), DInt(2)>>, <<One, TDiv(DInt(9), DInt(8))>> >>
\* digital: s = 2 fs i u with fs = 2
WarpOf(c) == IF c.analog THEN c.t ELSE [i \in DOMAIN c.t |-> DMul(DInt(4), c.t[i])]
OpOf(b) == CASE b = "lowpass" -> "lp2lp" [] b = "highpass" -> "lp2hp" [] b = "bandpass" -> "lp2bp" [] b = "bandstop" -> "lp2bs"
Wo(c) == LET w == WarpOf(c) IN IF Len(w) = 1 THEN w[1] ELSE Sqrt(TMul(w[1], w[2]))
Bw(c) == LET w == WarpOf(c) IN IF Len(w) = 1 THEN One ELSE DSub(w[2], w[1])

Init == stage = "start" /\ cfg = <<>> /\ filt = None /\ prev = None
Choose ==
  /\ stage = "start"
  /\ \E fam \in Fams, n \in 1..MaxOrder, b \in Bands, an \in BOOLEAN, i \in 1..2 :
       cfg' = [fam |-> fam, n |-> n, band |-> b, analog |-> an, t |-> Edges(b)[i]]
  /\ stage' = "chosen" /\ UNCHANGED <<filt, prev>>
Prototype == stage = "chosen" /\ filt' = Proto(cfg.fam, cfg.n, Ripple(cfg.fam)) /\ stage' = "proto" /\ UNCHANGED <<cfg, prev>>
Band == /\ stage = "proto" /\ filt' = Apply(OpOf(cfg.band), filt, Wo(cfg), Bw(cfg)) /\ prev' = filt
        /\ stage' = (IF cfg.analog THEN "done" ELSE "band") /\ UNCHANGED cfg
Discretise == stage = "band" /\ filt' = Bilinear(filt, Two) /\ prev' = filt /\ stage' = "done" /\ UNCHANGED cfg
Next == Choose \/ Prototype \/ Band \/ Discretise
Spec == Init /\ [][Next]_vars

Tol == DTwo(-80)
Probes == << <<DTwo(-1), One>>, <<DInt(3), DInt(-1)>>, <<DTwo(-3), DTwo(-2)>> >>
StepOk ==
  [][/\ (stage = "proto" => /\ <<Len(filt'.z), Len(filt'.p)>> = Counts(OpOf(cfg.band), Len(filt.z), Len(filt.p))
                            /\ \A i \in DOMAIN Probes : SameAt(filt, filt', Sub(OpOf(cfg.band), Probes[i], Wo(cfg), Bw(cfg)), Probes[i], Tol))
     /\ (stage = "band" => \A i \in DOMAIN Probes : SameAt(filt, filt', Sub("bilinear", Probes[i], Two, One), Probes[i], Tol))]_vars
MagnitudeOk ==
  stage = "done" =>
    \A i \in DOMAIN Points(cfg.t) :
      LET u == Points(cfg.t)[i]
          pt == PointOf(cfg.analog, u)
          law == Law(cfg.fam, cfg.n, Ripple(cfg.fam), ProtoFreq(cfg.band, cfg.t, u))
          l == TMul(CAbs2(NumAt(filt, pt)), law[2])
          r == TMul(CAbs2(DenAt(filt, pt)), law[1]) IN
      Within(l, r, DMul(Tol, MaxD(TMul(CAbs2(DenAt(filt, pt)), law[2]), r)))
Stable == stage = "done" => \A i \in DOMAIN filt.p :
            IF cfg.analog THEN DSgn(filt.p[i][1]) = -1 ELSE DLt(CAbs2(filt.p[i]), One)
RealOk == stage = "done" => Conjugate(filt.p, Tol) /\ Conjugate(filt.z, Tol) /\ DSgn(filt.k) = 1
\* the edge is where the gain is what the family says
EdgeOk == stage = "done" => \A i \in DOMAIN cfg.t :
            LET law == Law(cfg.fam, cfg.n, Ripple(cfg.fam), ProtoFreq(cfg.band, cfg.t, <<cfg.t[i], One>>))
                want == IF cfg.fam = "butter" THEN Two ELSE Ripple(cfg.fam) IN
            Within(TMul(law[1], want), law[2], DMul(Tol, law[2]))
=============================================================================
