------------------------------- MODULE Stream -------------------------------
(* A lazy operation between a source of samples and a consumer of answers.   *)
(* The source may be cloned, may be endless, may fail at a sample; the        *)
(* consumer asks for one answer after another, skips some, takes all the      *)
(* rest, or stops.  Every step is one event:                                  *)
(*   <<"clone", h, g>>   handle g starts where handle h is                    *)
(*   <<"pull", h, i>>    handle h reads sample i                              *)
(*   <<"end", h, 0>>     handle h finds the source exhausted                  *)
(*   <<"boom", h, i>>    reading sample i fails                               *)
(*   <<"called", 0, 0>>  the operation has handed its answers' iterator back  *)
(*   <<"hint", lo, hi>>  what the iterator says is still to come              *)
(*   <<"ask", j, 0>>     the consumer skips j answers and wants the next      *)
(*   <<"rest", 0, 0>>    the consumer wants all the rest, one by one          *)
(*   <<"count", 0, 0>>   the consumer wants to know how many are left         *)
(*   <<"yield", v, 0>>, <<"none", 0, 0>>, <<"over", 0, 0>>,                   *)
(*   <<"counted", k, 0>>, <<"panic", 0, 0>>   the answers to these            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Far == 536870912
Least(a, b) == IF a <= b THEN a ELSE b

(* c: what the operation is about: op; n samples in the source (-1: endless); *)
(* fault: the sample whose reading fails (0: none); xs: the samples, over and *)
(* over if endless; secs: sections <<b0, b1, b2, a1, a2, z0, z1>>             *)
Sample(c, i) == c.xs[((i - 1) % Len(c.xs)) + 1]
Supply(c) == IF c.n = -1 THEN Far ELSE c.n
Total(c) == IF c.n = -1 THEN Far
            ELSE IF c.op = "differences" THEN (IF c.n = 0 THEN 0 ELSE c.n - 1)
            ELSE c.n
\* how much further than its answer an operation may read
Ahead(c) == CASE c.op = "filter" -> 0 [] c.op = "differences" -> 1 [] OTHER -> Far

\* one sample through integer sections (transposed direct form II), with the memories before and after
RECURSIVE Cascade(_, _, _, _, _)
Cascade(secs, mem, x, k, acc) ==
  IF k > Len(secs) THEN [y |-> x, mem |-> acc]
  ELSE LET q == secs[k]
           y == q[1] * x + mem[k][1]
       IN Cascade(secs, mem, y, k + 1, Append(acc, <<q[2] * x - q[4] * y + mem[k][2], q[3] * x - q[5] * y>>))
RECURSIVE Feed(_, _, _, _)
Feed(c, r, from, to) ==
  IF from > to THEN r ELSE Feed(c, TLCEval(Cascade(c.secs, r.mem, Sample(c, from), 1, <<>>)), from + 1, to)

Start(c) == [heads |-> <<0>>, out |-> 0, want |-> 0, mode |-> "call", failed |-> FALSE, clear |-> TRUE,
             mem |-> [k \in 1..Len(c.secs) |-> <<c.secs[k][6], c.secs[k][7]>>], ok |-> TRUE]
Bad(s) == [s EXCEPT !.ok = FALSE]

\* the furthest sample that may have been read while the present question is open
Limit(c, s) ==
  LET top == CASE s.mode = "ask" -> s.want [] s.mode = "rest" -> s.out + 1 [] s.mode = "count" -> Far [] OTHER -> 0
  IN Least(Far, top + Ahead(c))
Busy(s) == s.mode \in {"call", "ask", "rest", "count"} /\ ~s.failed

\* answers up to number k are out: the memory is that after as many samples
Deliver(c, s, k) ==
  IF c.op \in {"filter", "collected"} THEN Feed(c, [y |-> 0, mem |-> s.mem], s.out + 1, k) ELSE [y |-> 0, mem |-> s.mem]
Answer(c, s, k, r) ==
  CASE c.op \in {"filter", "collected"} -> r.y
    [] c.op = "differences" -> Sample(c, k + 1) - Sample(c, k)
    [] OTHER -> k \* scores: which of the scores taken one by one it is

Step(c, s, e) ==
  CASE e[1] = "clone" -> IF Busy(s) /\ e[2] \in DOMAIN s.heads /\ e[3] = Len(s.heads) + 1
                         THEN [s EXCEPT !.heads = Append(@, s.heads[e[2]])] ELSE Bad(s)
    [] e[1] = "pull" -> IF Busy(s) /\ e[2] \in DOMAIN s.heads /\ s.heads[e[2]] = e[3] - 1 /\ e[3] <= Supply(c) /\ e[3] <= Limit(c, s)
                        THEN [s EXCEPT !.heads[e[2]] = e[3]] ELSE Bad(s)
    [] e[1] = "end" -> IF Busy(s) /\ e[2] \in DOMAIN s.heads /\ s.heads[e[2]] = Supply(c) THEN s ELSE Bad(s)
    [] e[1] = "boom" -> IF Busy(s) /\ e[2] \in DOMAIN s.heads /\ s.heads[e[2]] = e[3] - 1 /\ e[3] = c.fault /\ e[3] <= Limit(c, s)
                        THEN [s EXCEPT !.failed = TRUE] ELSE Bad(s)
    [] e[1] = "panic" -> IF s.failed /\ s.mode # "dead"
                         THEN [s EXCEPT !.mode = "dead", !.clear = (s.mode = "rest" \/ (s.mode = "ask" /\ s.want = s.out + 1))] ELSE Bad(s)
    [] e[1] = "called" -> IF s.mode = "call" /\ ~s.failed THEN [s EXCEPT !.mode = "idle"] ELSE Bad(s)
    [] e[1] = "hint" -> IF s.mode = "idle" /\ IF c.n = -1 THEN e[3] \in {-1, Far}
                                                ELSE e[2] <= Total(c) - s.out /\ (e[3] = -1 \/ Total(c) - s.out <= e[3]) THEN s ELSE Bad(s)
    [] e[1] = "ask" -> IF s.mode = "idle" /\ e[2] >= 0 THEN [s EXCEPT !.mode = "ask", !.want = s.out + e[2] + 1] ELSE Bad(s)
    [] e[1] \in {"rest", "count"} -> IF s.mode = "idle" THEN [s EXCEPT !.mode = e[1]] ELSE Bad(s)
    [] e[1] = "yield" -> IF s.mode \in {"ask", "rest"} /\ ~s.failed
                         THEN LET k == IF s.mode = "ask" THEN s.want ELSE s.out + 1 IN
                              IF k > Total(c) THEN Bad(s)
                              ELSE LET r == Deliver(c, s, k) IN
                                   IF e[2] = Answer(c, s, k, r)
                                   THEN [s EXCEPT !.out = k, !.mem = r.mem, !.mode = IF @ = "ask" THEN "idle" ELSE @]
                                   ELSE Bad(s)
                         ELSE Bad(s)
    [] e[1] = "none" -> IF s.mode = "ask" /\ ~s.failed /\ s.want > Total(c)
                        THEN [s EXCEPT !.mode = "idle", !.mem = Deliver(c, s, Total(c)).mem, !.out = Total(c)] ELSE Bad(s)
    [] e[1] = "over" -> IF s.mode = "rest" /\ ~s.failed /\ s.out = Total(c) THEN [s EXCEPT !.mode = "idle"] ELSE Bad(s)
    [] e[1] = "counted" -> IF s.mode = "count" /\ ~s.failed /\ e[2] = Total(c) - s.out
                           THEN [s EXCEPT !.mode = "idle", !.mem = Deliver(c, s, Total(c)).mem, !.out = Total(c)] ELSE Bad(s)
    [] OTHER -> Bad(s)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(c, s, evs, i) == IF i > Len(evs) \/ ~s.ok THEN s ELSE RunFrom(c, TLCEval(Step(c, s, evs[i])), evs, i + 1)
Run(c, evs) == RunFrom(c, Start(c), evs, 1)
=============================================================================
