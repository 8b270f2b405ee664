------------------------------- MODULE MCPure -------------------------------
(* A function behind the interface is always accepted, whatever the history; *)
(* an implementation that answers from a memory of the previous call keyed   *)
(* by part of the arguments is caught by some history of two calls.          *)
EXTENDS Pure, Integers, Sequences
VARIABLES cache, hist, caught
Arg == {0, 1} \X {0, 1}
True(c) == c[1] + 2 * c[2]
\* remembers one answer, keyed by the first argument only
Cached(c) == IF cache # <<>> /\ cache[1] = c[1] THEN cache[2] ELSE True(c)
MInit == Init /\ cache = <<>> /\ hist = <<>> /\ caught = FALSE
MNext == \E c \in Arg :
  /\ Len(hist) < 4
  /\ hist' = Append(hist, c)
  /\ caught' = (caught \/ ~Fits(given, c, Cached(c)))
  /\ given' = Learn(given, c, Cached(c))
  /\ cache' = <<c[1], Cached(c)>>
  /\ Call(c, IF Fits(given, c, Cached(c)) THEN Cached(c) ELSE given[c])
\* the honest function never contradicts itself
HInit == MInit
HNext == \E c \in Arg : /\ Len(hist) < 4 /\ hist' = Append(hist, c) /\ Call(c, True(c)) /\ UNCHANGED <<cache, caught>>
Honest == \A c \in DOMAIN given : given[c] = True(c)
CanAlwaysAnswer == \A c \in Arg : Fits(given, c, True(c))
\* repeating the first call of any history with another second argument in between shows the cache
Shown == (Len(hist) = 3 /\ hist[1] = <<0, 0>> /\ hist[2] = <<1, 0>> /\ hist[3] = <<0, 0>>) => ~caught
Trapped == (Len(hist) = 4 /\ hist[1] = <<0, 0>> /\ hist[2] = <<1, 1>> /\ hist[3] = <<0, 1>> /\ hist[4] = <<0, 0>>) => caught
=============================================================================
