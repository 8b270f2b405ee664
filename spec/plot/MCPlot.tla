------------------------------- MODULE MCPlot -------------------------------
EXTENDS Plot
CONSTANT Patient            \* the interpreter reads to the end before it ends
VARIABLE st
Init == st = Start
Step(A(_)) == \E t \in A(st) : st' = t
Reads == Step(Read)
Eof == ~st.eof /\ Step(SeeEof)
CallerStep == Step(SpawnOk) \/ Step(SpawnFails) \/ Step(Write) \/ Step(WriteFails) \/ Step(CloseInput) \/ Step(Return)
ChildEnds == /\ (Patient => st.eof)
             /\ (Step(Leave) \/ Step(Gone))
ChildStep == \/ Step(ChildStarts)
             \/ Reads
             \/ Eof
             \/ ~Patient /\ Step(CloseRead)
             \/ ChildEnds
Next == CallerStep \/ ChildStep
\* the interpreter ends some time (a patient one after reading); the caller keeps going
Spec == Init /\ [][Next]_st /\ WF_st(CallerStep) /\ WF_st(Step(ChildStarts)) /\ WF_st(Reads) /\ WF_st(Eof) /\ WF_st(ChildEnds)
Safe == Complete(st) /\ Blocks(st) /\ Bounded(st)
\* the caller always comes back: it never waits for an interpreter that waits for it
Returns == <>(st.caller = "returned")
=============================================================================
