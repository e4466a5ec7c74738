--------------------------- MODULE Trace_TimeTruth ---------------------------
(* Recorded histories of calls and returns: there is an order of instants,   *)
(* one within each operation, which explains every answer.  poss: all that   *)
(* can be the case, as <<value, pending operations with their answers>>.     *)
EXTENDS TimeTruth, TraceBase
VARIABLES poss
Threads == 0..7
Idle == [t \in Threads |-> <<>>]
Perform(c) == {<<After(c[1], c[2][t][1]), [c[2] EXCEPT ![t] = Append(@, Answer(c[1], c[2][t][1]))]>> : t \in {u \in Threads : Len(c[2][u]) = 1}}
RECURSIVE Closure(_)
Closure(S) == LET N == S \cup UNION {Perform(c) : c \in S} IN IF N = S THEN S ELSE Closure(N)
Init == l = 1 /\ poss = {<<<<>>, Idle>>}
Begin == IsEvent("Begin") /\ poss' = {<<<<>>, Idle>>}
Call == /\ IsEvent("Call")
        /\ poss' = Closure({<<c[1], [c[2] EXCEPT ![Ev.t] = <<Ev.o>>]>> : c \in poss})
Return == /\ IsEvent("Ret")
          /\ poss' = {<<c[1], [c[2] EXCEPT ![Ev.t] = <<>>]>> : c \in {d \in poss : Len(d[2][Ev.t]) = 2 /\ d[2][Ev.t][2] = Ev.a}}
          /\ poss' # {}
Final == IsEvent("Final") /\ (\E c \in poss : c[1] = Ev.a) /\ UNCHANGED poss
TraceSpec == Init /\ [][Begin \/ Call \/ Return \/ Final]_<<poss, l>>
=============================================================================
