---------------------------- MODULE Trace_NovSbp ----------------------------
(* Whole recordings through the NovAtel to SBP converter: the frames of what   *)
(* was read, in order, determine every message that is written.                *)
EXTENDS NovToSbp, TraceBase
VARIABLES due
F == INSTANCE Framing WITH Classify <- NovAtelClassify, Rescan <- TRUE, unread <- <<>>, buf <- <<>>,
       ended <- FALSE, out <- <<>>, stream <- <<>>
RECURSIVE Says(_, _, _)
Says(st, s, fs) ==
  IF fs = <<>> THEN <<>>
  ELSE LET h == NovFrame(st, SubSeq(s, Head(fs)[1], Head(fs)[1] + Head(fs)[2] - 1)) IN h.outs \o Says(h.st, s, Tail(fs))
Init == l = 1 /\ due = <<>>
Begin == IsEvent("Begin") /\ due' = Says(NovInitial, Ev.b, F!Frames(Ev.b))
Parsed(b) ==
  LET n == Byte(b, 5) t == KindOf(LE16(b, 1)) p == SubSeq(b, 7, 6 + n) lay == SbpLayout(t, n) IN
  [k |-> t, s |-> L(LE16(b, 3)), f |-> IF WireLen(lay) = n THEN WireFields(p, 0, lay) ELSE <<>>]
Sbp == /\ IsEvent("Sbp")
       /\ Holds("an SBP frame", Len(Ev.b) >= 8 /\ Byte(Ev.b, 0) = 85 /\ Len(Ev.b) = 8 + Byte(Ev.b, 5)
                                /\ Crc16(SubSeq(Ev.b, 2, Len(Ev.b) - 2)) = LE16(Ev.b, Len(Ev.b) - 2))
       /\ Holds(<<"nothing more should have been sent, but", LE16(Ev.b, 1)>>, due # <<>>)
       /\ MatchMsg("message", Head(due), Parsed(Ev.b))
       /\ due' = Tail(due)
End == /\ IsEvent("End") /\ Same("exit status", 0, Ev.rc) /\ Same("messages never sent", <<>>, Kinds(due)) /\ UNCHANGED due
TraceSpec == Init /\ [][Begin \/ Sbp \/ End]_<<due, l>>
=============================================================================
