---------------------------- MODULE Trace_ToolNov ---------------------------
(* Executions of the program nov2sbp: everything it writes, and how it ends.   *)
EXTENDS Trace_NovSbp
Run == IsEvent("Run") /\ due' = Says(NovInitial, Ev.b, F!Frames(Ev.b))
Exit == /\ IsEvent("Exit") /\ Same("exit status", 0, Ev.ret) /\ Same("input left", 0, Ev.left)
        /\ Same("messages never written", <<>>, Kinds(due)) /\ UNCHANGED due
ToolSpec == Init /\ [][Run \/ Sbp \/ Exit]_<<due, l>>
=============================================================================
