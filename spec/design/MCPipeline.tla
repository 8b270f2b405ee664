---------------------------- MODULE MCPipeline ----------------------------
(***************************************************************************)
(* Design, cut into sections, filter: whatever signal arrives, the cascade *)
(* delivers what the difference equation of the textbook filter delivers,  *)
(* a settled constant stays settled, and the sections forget nothing.      *)
(***************************************************************************)
EXTENDS Pipeline, Sos
CONSTANTS MaxOrder, MaxLen
VARIABLES cfg, filt, secs, delay, xs, ys, z0
vars == <<cfg, filt, secs, delay, xs, ys, z0>>

Edge == [low |-> <<DTwo(-2)>>, high |-> <<Two>>, band |-> <<DTwo(-1), Two>>]
Ripple(fam) == IF fam = "cheby1" THEN Pow10(TDiv(DInt(3), DInt(20))) ELSE Pow10(DInt(3))
Nothing == [z |-> <<>>, p |-> <<>>, k |-> One]
Init == cfg = <<>> /\ filt = Nothing /\ secs = <<>> /\ delay = <<>> /\ xs = <<>> /\ ys = <<>> /\ z0 = FALSE
\* the state a unit constant settles to
RECURSIVE Rest(_, _, _)
Rest(cs, i, level) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET c == cs[i]
           y == TMul(level, TDiv(DSum(SubSeq(c, 1, 3)), DSum(SubSeq(c, 4, 6))))
           d2 == TR(DSub(DMul(c[3], level), DMul(c[6], y)))
           d1 == TR(DAdd(DSub(DMul(c[2], level), DMul(c[5], y)), d2)) IN
       << <<d1, d2>> >> \o Rest(cs, i + 1, y)
Design ==
  /\ cfg = <<>>
  /\ \E fam \in {"butter", "cheby1", "cheby2"}, n \in 1..MaxOrder, b \in {"lowpass", "highpass", "bandpass", "bandstop"}, w \in {"low", "high"}, s \in BOOLEAN :
       /\ (b \in {"bandpass", "bandstop"} => w = "low")
       /\ LET t == IF b \in {"bandpass", "bandstop"} THEN Edge.band ELSE Edge[w]
              f == TLCEval(Textbook(fam, n, Ripple(fam), b, t))
              cs == Cut(f) IN
          /\ cfg' = <<fam, n, b, w>> /\ filt' = f /\ secs' = cs /\ z0' = s
          /\ delay' = IF s THEN TLCEval(Rest(cs, 1, One)) ELSE TLCEval([i \in DOMAIN cs |-> <<Zero, Zero>>])
  /\ UNCHANGED <<xs, ys>>
Feed == /\ cfg # <<>> /\ Len(xs) < MaxLen
        /\ \E v \in {0, 1, -2} :
             LET r == Sample(secs, delay, DInt(v)) IN
             xs' = Append(xs, DInt(v)) /\ ys' = Append(ys, r.y) /\ delay' = r.d
        /\ UNCHANGED <<cfg, filt, secs, z0>>
Next == Design \/ Feed
Spec == Init /\ [][Next]_vars

Tol == DTwo(-70)
C == Expand(filt)
SectionsOk == cfg # <<>> => Len(secs) = (Len(filt.p) + 1) \div 2
CascadeIsDirect ==
  xs # <<>> => SeqWithin(ys, IF z0 THEN Direct(C, xs, One, GainAtZero(C)) ELSE AtRest(C, xs), Tol)
\* a constant passes zero-phase filtering with the squared gain at zero frequency
ConstantOk ==
  (cfg # <<>> /\ xs = <<>>) =>
    LET g == GainAtZero(C)
        want == TMul(g, g)
        y == ZeroPhase(C, [i \in 1..(Pad(C) + 1) |-> One]) IN
    \A i \in DOMAIN y : Within(y[i], want, Tol)
=============================================================================
