------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* The operators of DyadicPure under the names the specifications use.     *)
(* tools/java/Dyadic.java overrides them in TLC with BigInteger versions;  *)
(* DyadicTest checks that the override and the definitions agree.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL P == INSTANCE DyadicPure

NaN == <<2>>
Zero == <<0, 0>>
IsNum(a) == P!IsNum(a)
DNeg(a) == P!DNeg(a)
DAbs(a) == P!DAbs(a)
DAdd(a, b) == P!DAdd(a, b)
DSub(a, b) == P!DSub(a, b)
DMul(a, b) == P!DMul(a, b)
DSgn(a) == P!DSgn(a)
DLe(a, b) == P!DLe(a, b)
DLt(a, b) == P!DLt(a, b)
DInt(k) == P!DInt(k)
DTwo(k) == P!DTwo(k)
DRound(a, n) == P!DRound(a, n)
DDiv(a, b, n) == P!DDiv(a, b, n)
DSum(s) == P!DSum(s)
DDot(s, t) == P!DDot(s, t)
DMaxAbs(s) == P!DMaxAbs(s)
=============================================================================
