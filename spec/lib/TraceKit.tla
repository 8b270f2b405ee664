------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation.  The drivers record every call of the real code as    *)
(* one event; a trace module consumes the events and asks the              *)
(* specification whether each is one of its steps.                         *)
(*                                                                         *)
(* Events of stateless operations are independent, so the trace is split   *)
(* into Lanes interleaved lanes that TLC's workers consume in parallel:    *)
(* a state is (lane, position).  Every event is judged exactly once, and   *)
(* the post-condition says so.  A rejected event is reported and the rest  *)
(* of the trace is still judged.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, FastJson, IOUtils

Events == LoadNd(IOEnv.TRACE)
NEvents == Len(Events)
Lanes == 64

VARIABLES lane, pos
tvars == <<lane, pos>>

TraceInit == lane \in 1..Lanes /\ pos = lane
Done == pos > NEvents
Consume == pos' = pos + Lanes /\ UNCHANGED lane

Reject(e, why) == PrintT(<<"REJECT", e.id, why>>)

\* stateless step: the event is judged and consumed
StatelessNext(Accept(_)) ==
  /\ ~Done
  /\ Consume
  /\ IF Accept(Events[pos]) THEN TRUE ELSE Reject(Events[pos], Events[pos].op)

\* every event judged once: one state per event and one final state per lane
AllJudged == TLCGet("stats").distinct = NEvents + Lanes
=============================================================================
