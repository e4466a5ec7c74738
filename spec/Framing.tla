------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* A receiver that finds frames in a byte stream which arrives in pieces   *)
(* of arbitrary size and may contain noise, damaged frames and truncated   *)
(* frames.  The four binary receivers of this code base (NovAtel, RTCM 3,  *)
(* UBX, IXCOM) are instances: they differ in Classify only.                *)
(*                                                                         *)
(* Classify(s, i) says what can be concluded about the position i (1-based)*)
(* of the bytes s received so far:                                         *)
(*   [k |-> "frame", n |-> N]  a valid frame of N bytes starts here        *)
(*   [k |-> "skip",  n |-> N]  the next N bytes cannot start a frame       *)
(*   [k |-> "wait"]            the bytes up to the end of s could be the   *)
(*                             beginning of a frame                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Classify(_, _)
(* whether the bytes of a frame that never completes are searched for others *)
CONSTANT Rescan

(* What the whole stream contains: the frames in order, as <<start, length>>.
   At the end of the stream a frame that is still incomplete is not a frame. *)
RECURSIVE NextFrame(_, _)
NextFrame(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == Classify(s, i) IN
       IF c.k = "frame" THEN <<i, c.n>>
       ELSE IF c.k = "wait" /\ ~Rescan THEN <<>>
       ELSE NextFrame(s, IF c.k = "skip" THEN i + c.n ELSE i + 1)

RECURSIVE FramesFrom(_, _)
FramesFrom(s, i) ==
  LET f == NextFrame(s, i) IN
  IF f = <<>> THEN <<>> ELSE <<f>> \o FramesFrom(s, f[1] + f[2])
Frames(s) == FramesFrom(s, 1)

FrameBytes(s, f) == SubSeq(s, f[1], f[1] + f[2] - 1)
Contents(s) == [j \in 1..Len(Frames(s)) |-> FrameBytes(s, Frames(s)[j])]

(* The receiver.  unread: what the source still holds; buf: received and not
   yet consumed; ended: the source has reported the end; out: frames delivered *)
VARIABLES stream, unread, buf, ended, out
rvars == <<stream, unread, buf, ended, out>>

ReceiverInit(s) ==
  /\ stream = s /\ unread = s /\ buf = <<>> /\ ended = FALSE /\ out = <<>>

Read(n) ==
  /\ ~ended /\ n \in 1..Len(unread)
  /\ buf' = buf \o SubSeq(unread, 1, n)
  /\ unread' = SubSeq(unread, n + 1, Len(unread))
  /\ UNCHANGED <<stream, ended, out>>

ReadEnd ==
  /\ ~ended /\ unread = <<>>
  /\ ended' = TRUE
  /\ UNCHANGED <<stream, unread, buf, out>>

Consume(n) == buf' = SubSeq(buf, n + 1, Len(buf))

Deliver ==
  /\ buf # <<>>
  /\ LET c == Classify(buf, 1) IN
       /\ c.k = "frame"
       /\ out' = Append(out, SubSeq(buf, 1, c.n))
       /\ Consume(c.n)
  /\ UNCHANGED <<stream, unread, ended>>

Resync ==
  /\ buf # <<>>
  /\ LET c == Classify(buf, 1) IN
       \/ c.k = "skip" /\ Consume(IF c.n > Len(buf) THEN Len(buf) ELSE c.n)
       \/ c.k = "wait" /\ ended /\ Consume(IF Rescan THEN 1 ELSE Len(buf))
  /\ UNCHANGED <<stream, unread, ended, out>>

ReceiverNext == (\E n \in 1..Len(unread) : Read(n)) \/ ReadEnd \/ Deliver \/ Resync

(* The guarantees *)
PrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* nothing is delivered that the stream does not contain, and in its order *)
OnlyFrames == PrefixOf(out, Contents(stream))
(* when everything has been consumed, every frame has been delivered *)
AllFrames == (ended /\ buf = <<>>) => out = Contents(stream)
(* a receiver never stops with input left *)
NeverStuck == ENABLED ReceiverNext \/ (ended /\ buf = <<>>)
=============================================================================
