-------------------------------- MODULE Heap --------------------------------
(* The heap as an operation of the library uses it: blocks come and go, and  *)
(* the books say how many came, how much was live at once, what is left.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max(a, b) == IF a >= b THEN a ELSE b

\* live: block -> size; come: blocks handed out; now, peak: bytes
Empty == [live |-> << >>, come |-> 0, now |-> 0, peak |-> 0, ok |-> TRUE]
Take(h, size) ==
  [h EXCEPT !.live = (h.come + 1) :> size @@ @, !.come = @ + 1, !.now = @ + size, !.peak = Max(@, h.now + size)]
\* only a live block goes back, with the size it was taken with
Give(h, block, size) ==
  IF block \in DOMAIN h.live /\ h.live[block] = size
  THEN [h EXCEPT !.live = [b \in DOMAIN @ \ {block} |-> @[b]], !.now = @ - size]
  ELSE [h EXCEPT !.ok = FALSE]

\* a step of a recorded log: <<"take", block, size>> or <<"give", block, size>>
Step(h, l) == IF l[1] = "take" THEN (IF l[2] = h.come + 1 THEN Take(h, l[3]) ELSE [h EXCEPT !.ok = FALSE]) ELSE Give(h, l[2], l[3])
RECURSIVE RunFrom(_, _, _)
RunFrom(h, log, i) == IF i > Len(log) THEN h ELSE RunFrom(TLCEval(Step(h, log[i])), log, i + 1)
Run(log) == RunFrom(Empty, log, 1)

--------------------------------------------------------------------------
(* The promise.  Three kinds of operations:                                 *)
(*  none      nothing is ever taken                                          *)
(*  data      what is live stays within a multiple of the data: what the     *)
(*            caller hands over, what comes back, and the tables the problem *)
(*            defines (work: matrix entries, window times order, roots)      *)
(*  spectrum  the same for operations that go through a padded transform     *)
Kinds == {"none", "data", "spectrum"}
Base == 4096
PerByte(kind) == IF kind = "spectrum" THEN 48 ELSE 16
Entry == 16      \* bytes of the widest element
Allowance(kind, given, got, work) == Base + PerByte(kind) * (given + got + Entry * work)

\* one call's books against the promise
Frugal(kind, refused, books, given, got, work) ==
  IF kind = "none" /\ ~refused THEN books.n = 0 /\ books.peak = 0
  ELSE IF kind = "none" THEN books.peak <= Base
  ELSE books.peak <= Allowance(kind, given, got, work)
=============================================================================
