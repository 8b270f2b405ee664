------------------------------- MODULE MCSos -------------------------------
(***************************************************************************)
(* Exhaustive bounded model: every history of chunks over a small alphabet,*)
(* from every initial state, for cascades of 0, 1 and 2 sections.          *)
(***************************************************************************)
EXTENDS SosFilter, FiniteSets

CONSTANTS MaxSamples, MaxChunk, Alphabet, SecSet, DelaySet

I(s) == [k \in DOMAIN s |-> DInt(s[k])]
Secs == { I(s) : s \in SecSet }
Cascades == UNION { [1..n -> Secs] : n \in 0..2 }
Chunks == UNION { [1..n -> { DInt(a) : a \in Alphabet }] : n \in 0..MaxChunk }

SecSetDef == { <<1, 2, -1, 1, 1, -1>>, <<2, 0, 1, 1, 0, 0>>, <<1, -1, 0, 1, -1, 0>> }
AlphabetDef == {-1, 0, 2}
DelaySetDef == { <<0, 0>>, <<1, -2>> }

VARIABLES d0, xs, ys     \* initial delays and the history of inputs and outputs
vars == <<coef, delay, d0, xs, ys>>

Init == /\ coef \in Cascades
        /\ d0 \in [1..Len(coef) -> { I(d) : d \in DelaySet }]
        /\ delay = d0
        /\ xs = <<>> /\ ys = <<>>

Feed(ch) == /\ Len(xs) + Len(ch) <= MaxSamples
            /\ Process("any", ch)
            /\ xs' = xs \o ch
            /\ ys' = ys \o Run(coef, delay, ch).y
            /\ UNCHANGED d0
Next == \E ch \in Chunks \ {<<>>} : Feed(ch)
Spec == Init /\ [][Next]_vars

\* the history is all that matters: chunk boundaries are invisible
ChunkingInvisible == /\ ys = Run(coef, d0, xs).y
                     /\ delay = Run(coef, d0, xs).d
SameLength == Len(ys) = Len(xs)
CoefConstant == [][coef' = coef]_vars

\* polynomial product of little-endian coefficient sequences
Conv(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
                DSum([i \in 1..Len(p) |-> IF k - i + 1 >= 1 /\ k - i + 1 <= Len(q)
                                         THEN DMul(p[i], q[k - i + 1]) ELSE Zero])]
RECURSIVE Prod(_, _, _)
Prod(cs, from, i) == IF i = 0 THEN <<One>> ELSE Conv(Prod(cs, from, i - 1), SubSeq(cs[i], from, from + 2))
At(s, i) == IF i >= 1 THEN s[i] ELSE Zero
\* the transfer function: sum_k A_k y[n-k] = sum_k B_k x[n-k] when started at rest
AtRest == \A i \in DOMAIN d0 : d0[i] = <<Zero, Zero>>
DifferenceEquation ==
  AtRest =>
    LET b == Prod(coef, 1, Len(coef))
        a == Prod(coef, 4, Len(coef)) IN
    \A n \in 1..Len(xs) :
      DSum([k \in 1..Len(a) |-> DMul(a[k], At(ys, n - k + 1))])
        = DSum([k \in 1..Len(b) |-> DMul(b[k], At(xs, n - k + 1))])
\* superposition of initial state and input
Superposition ==
  ys = [n \in 1..Len(xs) |->
         DAdd(Run(coef, [i \in DOMAIN coef |-> <<Zero, Zero>>], xs).y[n],
              Run(coef, d0, [i \in DOMAIN xs |-> Zero]).y[n])]
=============================================================================
