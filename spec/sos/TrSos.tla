------------------------------- MODULE TrSos -------------------------------
(***************************************************************************)
(* Sessions recorded from the real filter, replayed through SosFilter.     *)
(* One event is one session: sections, initial delays, and the steps the   *)
(* driver took.  Each step is one action of SosFilter; the logged outputs, *)
(* delays and "sections unchanged" flag are compared after each.           *)
(***************************************************************************)
EXTENDS SosFilter, TraceKit

VARIABLES step,    \* next step of the current session
          scale    \* largest magnitude seen: rounding is relative to it
vars == <<lane, pos, step, scale, coef, delay>>

Enter(p) == IF p > NEvents THEN /\ coef' = <<>> /\ delay' = <<>> /\ scale' = Zero
            ELSE /\ coef' = Events[p].coef
                 /\ delay' = Events[p].z
                 /\ scale' = DMaxAbs(Flat(Events[p].z))
Init == /\ TraceInit
        /\ step = 1
        /\ IF pos > NEvents THEN coef = <<>> /\ delay = <<>> /\ scale = Zero
           ELSE /\ coef = Events[pos].coef
                /\ delay = Events[pos].z
                /\ scale = DMaxAbs(Flat(Events[pos].z))

NextSession == /\ step' = 1 /\ Consume /\ Enter(pos + Lanes)

Ty == Events[pos].ty
Steps == Events[pos].steps
\* a sample that is no number makes every number that depends on it none: NaN and the infinities stay outside
\* the finite numbers under +, - and *
Finite(s) == SelectSeq(s, IsNum)
Size(s) == DMaxAbs(Finite(s))
AllClose(got, want, tol) == /\ Len(got) = Len(want)
                            /\ \A i \in DOMAIN want : IF IsNum(want[i]) THEN Within(got[i], want[i], tol) ELSE ~IsNum(got[i])
\* below the smallest normal number the type's rounding no longer shrinks
Least == IF Ty = "f32" THEN DTwo(-126) ELSE DTwo(-1022)
WhyNot(s, r, seen) == LET sc == MaxD(seen, Least) IN
  IF s.st # "ok" THEN "call did not return"
  ELSE IF Len(s.y) # Len(r.y) THEN "output length"
  ELSE IF ~AllClose(s.y, r.y, DMul(Eps(Ty), sc)) THEN "output values"
  ELSE IF ~(Len(s.z) = Len(r.d) /\ AllClose(Flat(s.z), Flat(r.d), DMul(Eps(Ty), sc))) THEN "delay values"
  ELSE IF ~s.same THEN "sections changed"
  ELSE ""

\* the samples a step consumes: an iterator taken k items at a time consumes k
Fed(s) == IF s.ep = "st_take" THEN SubSeq(s.x, 1, s.take) ELSE s.x

ProcessStep(s) ==
  LET r == Run(coef, delay, Fed(s))
      sc == MaxD(MaxD(scale, Size(s.x)), MaxD(Size(r.y), Size(Flat(r.d))))
      why == WhyNot(s, r, sc) IN
  IF why = "" THEN Process(s.ep, Fed(s)) /\ scale' = sc /\ step' = step + 1 /\ UNCHANGED <<lane, pos>>
  ELSE Reject(Events[pos], <<s.ep, step, why>>) /\ NextSession

\* a call with an output slice of the wrong length is refused and has no effect
RefuseStep(s) ==
  IF s.st = "panic" /\ s.same /\ s.kept
  THEN Refuse /\ scale' = scale /\ step' = step + 1 /\ UNCHANGED <<lane, pos>>
  ELSE Reject(Events[pos], <<s.ep, step, "mismatched output slice not refused">>) /\ NextSession

Next ==
  /\ ~Done
  /\ IF step > Len(Steps) THEN NextSession
     ELSE IF Steps[step].ep = "mismatch" THEN RefuseStep(Steps[step])
     ELSE ProcessStep(Steps[step])
Spec == Init /\ [][Next]_vars

\* every lane reaches the end of its share of the trace
CoefFixed == [][pos' = pos => coef' = coef]_vars
=============================================================================
