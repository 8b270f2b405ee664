----------------------------- MODULE SosFilter -----------------------------
(***************************************************************************)
(* The filter as a state machine: a user owns sections and streams samples *)
(* through them, in chunks of any size, through any entry point.           *)
(***************************************************************************)
EXTENDS Sos

VARIABLES coef,   \* the sections; no action changes them
          delay   \* one pair of delay values per section
fvars == <<coef, delay>>

\* ep (which entry point) does not appear: all of them have this meaning
Process(ep, xs) ==
  /\ delay' = Run(coef, delay, xs).d
  /\ UNCHANGED coef

\* a call the library must refuse has no effect
Refuse == UNCHANGED fvars
=============================================================================
