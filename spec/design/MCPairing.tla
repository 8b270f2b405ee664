----------------------------- MODULE MCPairing -----------------------------
(* For every number and kind of roots and every order the poles and zeros   *)
(* may be met in, the deal comes out even -- except for the listed shapes.  *)
EXTENDS Pairing
VARIABLE start
v2 == <<vars, start>>
I2 == Init /\ start = [mode |-> mode, pc |-> pc, pr |-> pr, zc |-> zc, zr |-> zr]
N2 == Next /\ start' = start
Spec2 == I2 /\ [][N2]_v2
MayStick == /\ start.mode = "minimal"
            /\ 2 * start.pc + start.pr = 2 * start.zc + start.zr
            /\ start.pr % 2 = 1 /\ start.pr >= 3 /\ start.zc >= 1
NoStuck == MayStick \/ NeverStuck
=============================================================================
