------------------------------ MODULE FrameGen ------------------------------
(***************************************************************************)
(* Abstract byte streams for the framed receivers: what the stream is made *)
(* of, where it is cut into reads, and how it ends.  TLC prints every      *)
(* complete behaviour (or random ones, in simulation mode) as JSON; the    *)
(* check turns each into bytes and replays it into the real receiver.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Cuts, Ends, MaxItems
VARIABLES items, ending

Init == items = <<>> /\ ending = "none"
Add == /\ ending = "none" /\ Len(items) < MaxItems
       /\ \E k \in Kinds, c \in Cuts : items' = Append(items, [k |-> k, c |-> c])
       /\ UNCHANGED ending
Finish == /\ ending = "none" /\ items # <<>>
          /\ \E e \in Ends : ending' = e
          /\ UNCHANGED items
Next == Add \/ Finish
Spec == Init /\ [][Next]_<<items, ending>>
Emit == ending # "none" => PrintT("GEN " \o ToJson([items |-> items, ending |-> ending]))
=============================================================================
