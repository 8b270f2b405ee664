------------------------------ MODULE TrStream ------------------------------
(* Recorded sessions of the real operations as behaviours of Stream.          *)
EXTENDS Stream, TraceKit
Cfg(e) == [op |-> e.kind, n |-> e.n, fault |-> e.fault, xs |-> e.xs, secs |-> e.secs]
Accept(e) ==
  LET s == Run(Cfg(e), e.ev) IN
  /\ s.ok
  /\ s.mode \in {"idle", "dead"}
  /\ (e.kind = "filter" /\ s.clear => e.mem = s.mem)
  /\ (e.kind = "collected" /\ s.mode = "idle" => e.mem = Deliver(Cfg(e), Start(Cfg(e)), e.n).mem)
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
