------------------------------- MODULE TrPlot -------------------------------
(***************************************************************************)
(* Recorded runs of the plotting helper with stand-in interpreters.  The   *)
(* log of a run holds what both sides did, in order: "start" (interpreter  *)
(* runs), "eof" (it has read all its input), "bye" (its last act),         *)
(* "return" (the helper came back).  Everything else is hidden, so the     *)
(* judge carries the set of all states the specification can be in.        *)
(***************************************************************************)
EXTENDS Plot, Num, TraceKit

RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Hidden(s) \cup (IF s.child = "leaving" THEN Gone(s) ELSE {}) : s \in S} IN
              IF T = S THEN S ELSE Closure(T)
\* an interpreter that is killed, or was never able to say so, goes without a "bye"
ClosureAbrupt(S) == LET T == Closure(S) IN Closure(T \cup UNION {Gone(s) : s \in T})
Obs(ev, s) == CASE ev = "start" -> ChildStarts(s)
                [] ev = "eof" -> {t \in SeeEof(s) : t.got = Size}
                [] ev = "bye" -> Leave(s)
                [] ev = "return" -> Return(s)
                [] OTHER -> {}
RECURSIVE After(_, _, _)
After(log, S, abrupt) ==
  LET C == IF abrupt THEN ClosureAbrupt(S) ELSE Closure(S) IN
  IF log = <<>> \/ S = {} THEN C
  ELSE After(Tail(log), UNION {Obs(log[1], s) : s \in C}, abrupt)
\* the log is a behaviour, and at its end the helper is back
LogOk(e) == /\ e.log # <<>>
            /\ \E i \in DOMAIN e.log : e.log[i] = "return"
            /\ After(e.log, {Start}, e.policy \in {"killed", "early", "absent", "noexec"}) # {}
            /\ ("absent" = e.policy \/ "noexec" = e.policy) => e.log = <<"return">>
            /\ e.policy \in {"reader", "fails", "noisy", "slow", "window", "sleepy", "trickle", "huge"} => e.log = <<"start", "eof", "bye", "return">>

(* what was plotted: every signal, and its normalised autocorrelation over the lags *)
Fin(x) == \A i \in DOMAIN x : IsNum(x[i])
Near(got, want) == IF IsNum(want) THEN IsNum(got) /\ Within(got, want, DAdd(DTwo(-150), DMul(DTwo(-23), DAbs(want)))) ELSE ~IsNum(got)
IsSignal(p, x) == Len(p) = 1 /\ Len(p[1]) = Len(x) /\ \A i \in DOMAIN x : Near(p[1][i], x[i])
Lag(x, k) == LET n == Len(x) IN DSum([i \in 1..(n - k) |-> DMul(x[i], x[i + k])])
IsAuto(p, x) ==
  LET n == Len(x)
      e0 == Lag(x, 0) IN
  /\ Len(p) = 2 /\ Len(p[1]) = 2 * n - 1 /\ Len(p[2]) = 2 * n - 1
  /\ \A j \in 1..(2 * n - 1) :
       LET k == j - n IN
       /\ p[1][j] = DInt(k)
       /\ (Fin(x) /\ e0 # Zero) =>
             Within(DMul(p[2][j], e0), Lag(x, IF k < 0 THEN -k ELSE k), DMul(DTwo(-18), e0))
Plotted(e) ==
  /\ Len(e.plots) = 2 * Len(e.xs)
  /\ LET sig == SelectSeq(e.plots, LAMBDA p : Len(p) = 1)
         aut == SelectSeq(e.plots, LAMBDA p : Len(p) = 2) IN
     /\ Len(sig) = Len(e.xs) /\ Len(aut) = Len(e.xs)
     /\ \A i \in DOMAIN e.xs : IsSignal(sig[i], e.xs[i]) /\ (e.policy = "huge" \/ IsAuto(aut[i], e.xs[i]))
     /\ e.shown
Accept(e) ==
  /\ e.st = "ok"                              \* came back, without panic
  /\ e.leaked = 0                             \* the interpreter's chatter stays away from the caller's output
  /\ LogOk(e)
  /\ e.judged => Plotted(e)
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
