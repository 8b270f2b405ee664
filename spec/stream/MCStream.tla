------------------------------ MODULE MCStream ------------------------------
(* Three ways to answer lazily - one sample one answer; a pair of handles,   *)
(* one a sample ahead; one handle and a remembered sample - against every     *)
(* source (empty, finite, endless, failing anywhere) and every consumer.      *)
(* Each keeps the discipline of Stream, answers every question, and leaves    *)
(* in the source what it did not need.  An operation that reads in blocks is  *)
(* no behaviour of Stream.                                                    *)
EXTENDS Stream
CONSTANTS N, Asks
VARIABLES c, s, way, last, asked
vars == <<c, s, way, last, asked>>
Xs == <<3, -1, 2, 5>>
Ways == {"each", "pair", "window"}
Init ==
  /\ way \in Ways
  /\ \E n \in (0..N) \cup {-1}, f \in 0..N :
       c = [op |-> IF way = "each" THEN "filter" ELSE "differences", n |-> n, fault |-> IF n # -1 /\ f > n THEN 0 ELSE f,
            xs |-> Xs, secs |-> IF way = "each" THEN << <<1, 0, 0, -1, 0, 0, 0>>, <<2, 1, 0, 0, 0, 0, 0>> >> ELSE << >>]
  /\ s = Start(c) /\ last = "" /\ asked = 0
Do(e) == s' = Step(c, s, e) /\ last' = e[1] /\ UNCHANGED <<c, way>>

\* the call: the pair takes its second handle
Call == /\ s.mode = "call" /\ UNCHANGED asked
        /\ IF way = "pair" /\ Len(s.heads) = 1 THEN Do(<<"clone", 1, 2>>) ELSE Do(<<"called", 0, 0>>)
Consumer ==
  /\ s.mode = "idle" /\ asked < Asks /\ asked' = asked + 1
  /\ \/ \E j \in 0..2 : Do(<<"ask", j, 0>>)
     \/ c.n # -1 /\ (Do(<<"rest", 0, 0>>) \/ Do(<<"count", 0, 0>>))
Read(h) == IF s.heads[h] = c.n THEN <<"end", h, 0>>
           ELSE IF c.fault = s.heads[h] + 1 THEN <<"boom", h, c.fault>> ELSE <<"pull", h, s.heads[h] + 1>>
\* how many answers the samples read so far are enough for
Enough == CASE way = "each" -> s.heads[1]
            [] way = "pair" -> IF s.heads[2] = 0 THEN 0 ELSE Least(s.heads[1], s.heads[2] - 1)
            [] OTHER -> IF s.heads[1] = 0 THEN 0 ELSE s.heads[1] - 1
Goal == IF s.mode = "ask" THEN s.want ELSE IF s.mode = "rest" THEN s.out + 1 ELSE Far
Operation ==
  /\ s.mode \in {"ask", "rest", "count"} /\ UNCHANGED asked
  /\ IF s.failed THEN Do(<<"panic", 0, 0>>)
     ELSE IF last = "end" THEN Do(CASE s.mode = "ask" -> <<"none", 0, 0>> [] s.mode = "rest" -> <<"over", 0, 0>>
                                    [] OTHER -> <<"counted", Total(c) - s.out, 0>>)
     ELSE IF Enough >= Goal THEN Do(<<"yield", Answer(c, s, Goal, Deliver(c, s, Goal)), 0>>)
     \* the pair reads the first handle, then the second (which first drops its first sample)
     ELSE IF way = "pair" THEN Do(IF s.heads[1] <= (IF s.heads[2] = 0 THEN 0 ELSE s.heads[2] - 1) THEN Read(1) ELSE Read(2))
     ELSE Do(Read(1))
Next == Call \/ Consumer \/ Operation \/ (s.mode \in {"idle", "dead"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Call) /\ WF_vars(Operation)

Disciplined == s.ok
\* nothing is read that is not needed: what the consumer did not ask for stays in the source
Sparing == \A h \in DOMAIN s.heads : s.mode = "idle" => s.heads[h] <= s.out + Ahead(c)
\* the memory of the integrator is the sum of what went through
RECURSIVE SumTo(_)
SumTo(k) == IF k = 0 THEN 0 ELSE Sample(c, k) + SumTo(k - 1)
Remembered == (way = "each" /\ s.mode = "idle") => s.mem[1][1] = SumTo(s.out) /\ s.mem[2][1] = SumTo(s.out)
Answered == (s.mode \in {"ask", "rest", "count"}) ~> (s.mode \in {"idle", "dead"})

\* blocks of two, reading when called, a skipped sample that leaves no trace, and a dishonest hint are exposed
F == [op |-> "filter", n |-> 4, fault |-> 0, xs |-> Xs, secs |-> << <<1, 0, 0, -1, 0, 0, 0>> >>]
ASSUME Run(F, << <<"called", 0, 0>>, <<"ask", 0, 0>>, <<"pull", 1, 1>>, <<"yield", 3, 0>>, <<"hint", 3, 3>> >>).ok
ASSUME ~Run(F, << <<"called", 0, 0>>, <<"ask", 0, 0>>, <<"pull", 1, 1>>, <<"pull", 1, 2>> >>).ok
ASSUME ~Run(F, << <<"pull", 1, 1>> >>).ok
ASSUME Run(F, << <<"called", 0, 0>>, <<"ask", 1, 0>>, <<"pull", 1, 1>>, <<"pull", 1, 2>>, <<"yield", 2, 0>> >>).ok
ASSUME ~Run(F, << <<"called", 0, 0>>, <<"ask", 1, 0>>, <<"pull", 1, 1>>, <<"pull", 1, 2>>, <<"yield", -1, 0>> >>).ok
ASSUME ~Run(F, << <<"called", 0, 0>>, <<"hint", 5, -1>> >>).ok /\ ~Run(F, << <<"called", 0, 0>>, <<"hint", 0, 3>> >>).ok
=============================================================================
