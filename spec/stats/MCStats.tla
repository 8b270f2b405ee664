------------------------------ MODULE MCStats ------------------------------
(* The definitions on every sequence up to length MaxLen over a small        *)
(* alphabet (negative, zero, repeated, widely spaced values), and the        *)
(* partition machine: repeatedly keep the side of a pivot that holds the     *)
(* wanted rank.  Whatever pivot is taken, the machine ends with the element  *)
(* of that rank, and each round it keeps fewer elements.                     *)
EXTENDS Stats, FiniteSets
CONSTANT MaxLen
Alphabet == { DInt(k) : k \in {-7, 0, 1, 4} }
VARIABLES y, k, rest, rank, found
vars == <<y, k, rest, rank, found>>
Init == /\ y \in UNION { [1..n -> Alphabet] : n \in 1..MaxLen }
        /\ k \in 0..(Len(y) - 1)
        /\ rest = y /\ rank = k /\ found = <<>>
Partition == /\ found = <<>>
             /\ \E i \in DOMAIN rest :
                  LET p == rest[i]
                      lo == SelectSeq(rest, LAMBDA u : DLt(u, p))
                      hi == SelectSeq(rest, LAMBDA u : DLt(p, u))
                      same == Len(rest) - Len(lo) - Len(hi) IN
                  IF rank < Len(lo) THEN rest' = lo /\ rank' = rank /\ found' = found
                  ELSE IF rank < Len(lo) + same THEN found' = <<p>> /\ UNCHANGED <<rest, rank>>
                  ELSE rest' = hi /\ rank' = (rank - Len(lo)) - same /\ found' = found
             /\ UNCHANGED <<y, k>>
Next == Partition
Spec == Init /\ [][Next]_vars /\ WF_vars(Partition)

Holds == rank < Len(rest) /\ Ranked(rest, rank) = Ranked(y, k)          \* the wanted element stays in play
Right == found # <<>> => found[1] = Ranked(y, k) /\ HasRank(y, k, found[1])
Shrinks == [][found' = <<>> => Len(rest') < Len(rest)]_vars
Ends == <>(found # <<>>)

\* the definitions, in every initial state
First == rest = y /\ found = <<>> /\ k = 0
RankUnique == \A v \in Alphabet : HasRank(y, k, v) => v = Ranked(y, k)
Shift(c) == [i \in DOMAIN y |-> DAdd(y[i], c)]
Neg(s) == [i \in DOMAIN s |-> DNeg(s[i])]
Laws == First =>
  /\ MedianOf(Rev(y)) = MedianOf(y)
  /\ MedianOf(Shift(DInt(3))) = DAdd(MedianOf(y), DInt(3))
  /\ MedianOf(Neg(y)) = DNeg(MedianOf(y))
  /\ MadOf(Shift(DInt(3))) = MadOf(y)
  /\ \A c \in Alphabet :                                                 \* the median minimises absolute deviation
       DLe(DSum([i \in DOMAIN y |-> DAbs(DSub(y[i], MedianOf(y)))]), DSum([i \in DOMAIN y |-> DAbs(DSub(y[i], c))]))
  /\ Within(DSum(Centred(y)), Zero, DTwo(-100))
  /\ Within(VarOf(y), DSub(MeanSq(y), Mul(MeanOf(y), MeanOf(y))), DTwo(-100))
  /\ Within(VarOf(Shift(DInt(3))), VarOf(y), DTwo(-100))
  /\ Within(Div(AutoSum(y, 0), Count(y)), VarOf(y), DTwo(-100))
  /\ \A h \in 0..Len(y) : /\ DLe(DAbs(AutoSum(y, h)), DAdd(AutoSum(y, 0), DTwo(-100)))  \* |autocorrelation| <= 1
                          /\ Within(AutoSum(Rev(y), h), AutoSum(y, h), DTwo(-100))
  /\ Len(LagDiff(y)) = Len(y) - 1
  /\ DSum(LagDiff(y)) = DSub(y[Len(y)], y[1])
=============================================================================
