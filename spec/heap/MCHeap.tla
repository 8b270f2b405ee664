------------------------------- MODULE MCHeap -------------------------------
(* An operation that collects what a caller's sequence yields and answers   *)
(* with one element per element, over every honest statement the sequence   *)
(* may make about its length.  Reserving what is certain and growing by      *)
(* doubling keeps the promise; reserving what is merely possible does not.   *)
(* Any order of giving back is allowed, refusals and sequences that end the  *)
(* call in the middle included; afterwards nothing is left.                  *)
EXTENDS Heap
CONSTANTS N,        \* elements
          Huge      \* what a sequence may say it could yield at most
VARIABLES h, n, lo, hi, got, cap, block, phase
vars == <<h, n, lo, hi, got, cap, block, phase>>
\* small stand-ins for the constants of the promise
B == 8
K == 6
Bytes == 1
Init == /\ n \in 0..N /\ lo \in 0..n /\ hi \in {n, n + 1, Huge}
        /\ h = Empty /\ got = 0 /\ cap = 0 /\ block = 0 /\ phase = "start"
Reserve ==
  /\ phase = "start" /\ phase' = "collect"
  /\ LET want == lo IN
     IF want = 0 THEN UNCHANGED <<h, cap, block>>
     ELSE h' = Take(h, want) /\ cap' = want /\ block' = h.come + 1
  /\ UNCHANGED <<n, lo, hi, got>>
Pull ==
  /\ phase = "collect" /\ got < n /\ got < cap
  /\ got' = got + 1 /\ UNCHANGED <<h, n, lo, hi, cap, block, phase>>
\* full: a new block twice the size, a copy, and the old one goes back
Grow ==
  /\ phase = "collect" /\ got < n /\ got = cap
  /\ LET c == Max(4, 2 * cap)
         t == Take(h, c) IN
     /\ h' = IF block = 0 THEN t ELSE Give(t, block, cap)
     /\ cap' = c /\ block' = h.come + 1
  /\ UNCHANGED <<n, lo, hi, got, phase>>
Answer ==
  /\ phase = "collect" /\ got = n
  /\ h' = IF n = 0 THEN h ELSE Take(h, n)
  /\ phase' = "end" /\ UNCHANGED <<n, lo, hi, got, cap, block>>
GiveUp == phase = "collect" /\ got < n /\ phase' = "end" /\ UNCHANGED <<h, n, lo, hi, got, cap, block>>
Drop ==
  /\ phase = "end" /\ DOMAIN h.live # {}
  /\ \E b \in DOMAIN h.live : h' = Give(h, b, h.live[b])
  /\ UNCHANGED <<n, lo, hi, got, cap, block, phase>>
Over == phase = "end" /\ DOMAIN h.live = {} /\ UNCHANGED vars
Next == Reserve \/ Pull \/ Grow \/ Answer \/ GiveUp \/ Drop \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
\* the books are right
Honest == /\ h.ok /\ h.now = SumOver(h.live, DOMAIN h.live) /\ h.now <= h.peak
          /\ DOMAIN h.live \subseteq 1..h.come
\* the promise, in the small
Kept == h.peak <= B + K * (2 * n)
Clean == <>[](phase = "end" => h.now = 0 /\ DOMAIN h.live = {})
\* an operation that reserves what is merely possible is exposed by an honest sequence of any length
ASSUME \A m \in 0..N : Take(Empty, Huge).peak > B + K * (2 * m)
\* and one that keeps a block is seen in its books
ASSUME Run(<< <<"take", 1, 8>>, <<"take", 2, 8>>, <<"give", 1, 8>> >>).now = 8
\* a block given back twice, or with another size, is no behaviour of the heap
ASSUME ~Run(<< <<"take", 1, 8>>, <<"give", 1, 8>>, <<"give", 1, 8>> >>).ok /\ ~Run(<< <<"take", 1, 8>>, <<"give", 1, 4>> >>).ok
=============================================================================
