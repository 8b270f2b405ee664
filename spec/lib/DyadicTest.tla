----------------------------- MODULE DyadicTest -----------------------------
(* Self-check of the Java override: on an enumerated set of numbers the     *)
(* overridden operators of Dyadic equal the TLA+ definitions in DyadicPure. *)
EXTENDS Dyadic, TLC
LOCAL P == INSTANCE DyadicPure

Mags == { <<1>>, <<2>>, <<3>>, <<32767>>, <<16384>>, <<1, 1>>, <<32767, 32767>>,
          <<5, 0, 7>>, <<32767, 0, 0, 1>>, <<1, 32767, 32767, 32767>>,
          <<12345, 23456, 31111, 2, 17>> }
Nums == {<<0, 0>>, <<2>>} \cup { <<s, q>> \o m : s \in {-1, 1}, q \in {-4, -1, 0, 3}, m \in Mags }
Seqs == { <<>> } \cup { <<a, b, DNeg(a)>> : a \in { <<1, 0, 5>>, <<-1, -3, 7, 32767>> }, b \in Nums }

VARIABLES a, b
Init == a \in Nums /\ b \in Nums
Next == UNCHANGED <<a, b>>

Agree ==
  /\ IsNum(a) = P!IsNum(a) /\ DNeg(a) = P!DNeg(a) /\ DAbs(a) = P!DAbs(a) /\ DSgn(a) = P!DSgn(a)
  /\ DAdd(a, b) = P!DAdd(a, b) /\ DSub(a, b) = P!DSub(a, b) /\ DMul(a, b) = P!DMul(a, b)
  /\ DLe(a, b) = P!DLe(a, b) /\ DLt(a, b) = P!DLt(a, b)
  /\ \A n \in {1, 2, 4} : DRound(a, n) = P!DRound(a, n)
  /\ \A n \in {1, 3} : DDiv(a, b, n) = P!DDiv(a, b, n)
  /\ DSum(<<a, b, a>>) = P!DSum(<<a, b, a>>)
  /\ DDot(<<a, b>>, <<b, a, a>>) = P!DDot(<<a, b>>, <<b, a, a>>)
  /\ DMaxAbs(<<a, b>>) = P!DMaxAbs(<<a, b>>)
\* laws, on the definitions themselves
Laws ==
  /\ DAdd(a, b) = DAdd(b, a) /\ DMul(a, b) = DMul(b, a)
  /\ (IsNum(a) /\ IsNum(b)) => (DSub(DAdd(a, b), b) = a /\ DMul(DAdd(a, b), a) = DAdd(DMul(a, a), DMul(a, b)))
  /\ (IsNum(a) /\ IsNum(b) /\ b # Zero) => LET q == DDiv(a, b, 3) IN DLe(DAbs(DSub(DMul(q, b), a)), DMul(DAbs(a), DTwo(-29)))
ASSUME \A k \in {-2147483647, -40000, -1, 0, 1, 32767, 32768, 2147483647} : DInt(k) = P!DInt(k)
ASSUME \A k \in -50..50 : DTwo(k) = P!DTwo(k)
=============================================================================
