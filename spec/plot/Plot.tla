-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* The plotting helper: it starts an interpreter, writes a script to its   *)
(* standard input through a bounded pipe, closes the pipe and waits for    *)
(* the interpreter to end.  The interpreter is the environment: it may     *)
(* fail to start, read or not, close its input, and end at any moment.     *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   caller : "idle" "writing" "waiting" "returned"                        *)
(*   child  : "none" "new" "running" "leaving" "gone"                      *)
(*   sent, got : chunks of the script written / read                       *)
(*   wopen, ropen : the two ends of the pipe are open                      *)
(*   eof : the child has seen the end of its input                         *)
(*   broken : the caller found the pipe broken                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size, Cap        \* chunks in the script, capacity of the pipe

Start == [caller |-> "idle", child |-> "none", sent |-> 0, got |-> 0,
          wopen |-> FALSE, ropen |-> FALSE, eof |-> FALSE, broken |-> FALSE]

If(c, s) == IF c THEN {s} ELSE {}
Alive(s) == s.child \in {"new", "running", "leaving"}

(* the caller *)
SpawnOk(s) == If(s.caller = "idle", [s EXCEPT !.caller = "writing", !.child = "new", !.wopen = TRUE, !.ropen = TRUE])
SpawnFails(s) == If(s.caller = "idle", [s EXCEPT !.caller = "failed"])
Write(s) == If(s.caller = "writing" /\ s.ropen /\ s.sent < Size /\ s.sent - s.got < Cap, [s EXCEPT !.sent = @ + 1])
WriteFails(s) == If(s.caller = "writing" /\ ~s.ropen /\ s.sent < Size, [s EXCEPT !.caller = "failed", !.broken = TRUE, !.wopen = FALSE])
CloseInput(s) == If(s.caller = "writing" /\ s.sent = Size, [s EXCEPT !.caller = "waiting", !.wopen = FALSE])
Return(s) == If(\/ s.caller = "failed"                          \* nothing to wait for, or nobody listening
                \/ s.caller = "waiting" /\ s.child = "gone",
                [s EXCEPT !.caller = "returned"])

(* the interpreter *)
ChildStarts(s) == If(s.child = "new", [s EXCEPT !.child = "running"])
Read(s) == If(s.child = "running" /\ s.ropen /\ s.got < s.sent, [s EXCEPT !.got = @ + 1])
SeeEof(s) == If(s.child = "running" /\ s.ropen /\ s.got = s.sent /\ ~s.wopen, [s EXCEPT !.eof = TRUE])
CloseRead(s) == If(s.child = "running" /\ s.ropen, [s EXCEPT !.ropen = FALSE])
Leave(s) == If(s.child = "running", [s EXCEPT !.child = "leaving"])
\* it may also be ended without warning, even before it has started to run
Gone(s) == If(Alive(s), [s EXCEPT !.child = "gone", !.ropen = FALSE])

Hidden(s) == SpawnOk(s) \cup SpawnFails(s) \cup Write(s) \cup WriteFails(s) \cup CloseInput(s) \cup Read(s) \cup CloseRead(s)

(* guarantees *)
\* a script that was read to its end was read completely
Complete(s) == s.eof => (s.broken \/ s.got = Size)
\* the caller comes back only after the interpreter ended, unless it never started or hung up on the caller
Blocks(s) == s.caller = "returned" => (s.child \in {"none", "gone"} \/ s.broken)
Bounded(s) == s.sent <= Size /\ s.got <= s.sent
=============================================================================
