--------------------------- MODULE Trace_Sbp2Rtcm ---------------------------
(* Executions of the SBP to RTCM converter: every message makes it send what  *)
(* SbpToRtcm expects and nothing else, before the next message is looked at.  *)
EXTENDS S2RSays, TraceBase
VARIABLES st, mode
vars == <<st, mode>>
Init == l = 1 /\ st = <<>> /\ mode = ""
HBegin == /\ IsEvent("Begin") /\ mode' = Ev.mode
         /\ st' = CASE Ev.mode = "conv" -> StartConv [] Ev.mode = "main" -> StartMain [] OTHER -> Start
Quiet == Same("messages", <<>>, Ev.out) /\ UNCHANGED mode
HLeap == IsEvent("Leap") /\ Quiet /\ st' = [st EXCEPT !.leap = Ev.v]
HMode == IsEvent("Mode") /\ Quiet /\ st' = SetMode(st, Ev.m)
HFcn == IsEvent("Fcn") /\ Quiet /\ st' = SetFcn(st, Ev.sat, Ev.fcn)
HHeight == IsEvent("Height") /\ Quiet /\ Same("height accepted", HeightOk(Ev.h), Ev.ok) /\ st' = SetHeight(st, Ev.h)
HDesc == IsEvent("Desc") /\ Quiet /\ st' = SetTexts(st, Ev.ant, Ev.rcv)
(* the library call does not convert GLONASS biases *)
Ignored(type) == mode = "conv" /\ type = TBias
HMsg == /\ IsEvent("Msg") /\ UNCHANGED mode
       /\ IF Ignored(Ev.type) THEN Same("messages", <<>>, Ev.out) /\ UNCHANGED st
          ELSE LET h == Handle(st, Ev.type, Ev.snd, Ev.b) IN SaysAll(h.outs, Ev.out) /\ st' = h.st
TraceSpec == Init /\ [][HBegin \/ HLeap \/ HMode \/ HFcn \/ HHeight \/ HDesc \/ HMsg]_<<vars, l>>
=============================================================================
