------------------------------ MODULE Trace_Nov ------------------------------
(***************************************************************************)
(* Executions of the NovAtel parser against the Framing specification.     *)
(* Every delivery must be the next one the stream calls for; at the end    *)
(* nothing may be missing.  CheckBody selects whether the decoded bodies   *)
(* are compared too (property P02) or only the framing (P01).              *)
(***************************************************************************)
EXTENDS NovMessages, TraceBase
CONSTANT CheckBody
VARIABLES stream, given, due
vars == <<stream, given, due>>

\* only used for its operators over complete streams
F == INSTANCE Framing WITH Classify <- NovAtelClassify, Rescan <- TRUE, unread <- <<>>, buf <- <<>>,
       ended <- FALSE, out <- <<>>

(* the deliveries a stream calls for: each frame of a supported id and a matching
   size, once per registered callback of that id, in registration order *)
CallsFor(f, at, slots) ==
  LET id == MsgId(f) IN
  IF ~WellFormed(id, MsgBody(f)) THEN <<>>
  ELSE LET hits == SelectSeq([i \in 1..Len(slots) |-> i], LAMBDA i : slots[i] = id)
       IN [k \in 1..Len(hits) |-> [frame |-> f, upto |-> at + Len(f) - 1, slot |-> hits[k] - 1]]
RECURSIVE Due(_, _, _)
Due(s, fs, slots) ==
  IF fs = <<>> THEN <<>>
  ELSE CallsFor(SubSeq(s, Head(fs)[1], Head(fs)[1] + Head(fs)[2] - 1), Head(fs)[1], slots)
       \o Due(s, Tail(fs), slots)

TraceInit == l = 1 /\ stream = <<>> /\ given = 0 /\ due = <<>>

Begin == /\ IsEvent("Begin")
         /\ stream' = Ev.bytes /\ given' = 0
         /\ due' = Due(Ev.bytes, F!Frames(Ev.bytes), Ev.slots)
ReadEv == /\ IsEvent("Read")
          /\ given' = given + Ev.n /\ given' <= Len(stream)
          /\ UNCHANGED <<stream, due>>
Msg == /\ IsEvent("Msg")
       /\ Holds("a delivery the stream does not call for", due # <<>>)
       /\ LET d == Head(due) f == d.frame IN
            /\ Holds("delivered before it was received", d.upto <= given)
            /\ Same("callback slot", d.slot, Ev.slot)
            /\ Same("id", MsgId(f), Ev.id) /\ Ev.cbid = Ev.id
            /\ Same("length", MsgLen(f), Ev.len)
            /\ Same("week", MsgWeek(f), Ev.week)
            /\ Same("ms", MsgMs(f), Ev.ms)
            /\ CheckBody => Same("body", BodyOf(Ev.id, MsgBody(f)), Ev.body)
       /\ due' = Tail(due)
       /\ UNCHANGED <<stream, given>>
End == /\ IsEvent("End")
       /\ Holds("input left unread", Ev.left = 0 /\ given = Len(stream))
       /\ Same("messages never delivered", <<>>, due)
       /\ UNCHANGED vars
TraceNext == Begin \/ ReadEv \/ Msg \/ End
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
