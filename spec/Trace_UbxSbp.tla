---------------------------- MODULE Trace_UbxSbp ----------------------------
(* Executions of the UBX to SBP converter: every call delivers the next frame *)
(* the stream contains, and gives the messages it stands for.                 *)
EXTENDS UbxToSbp, TraceBase
VARIABLES stream, pos, st, env
vars == <<stream, pos, st, env>>
LenAtU(s, i) == s[i + 4] + 256 * s[i + 5]
SumOkU(s, i, n) == Fletcher8(SubSeq(s, i + 2, i + 5 + n)) = <<s[i + 6 + n], s[i + 7 + n]>>
P == INSTANCE UbxProto WITH Sync1 <- 181, Sync2 <- 98, MaxPayload <- 4090, LenAt <- LenAtU,
       HdrLen <- 6, CrcLen <- 2, SumOk <- SumOkU
ClassifyU(s, i) == P!UbxClassify(s, i)
F == INSTANCE Framing WITH Classify <- ClassifyU, Rescan <- FALSE, unread <- <<>>, buf <- <<>>, ended <- FALSE, out <- <<>>

Init == l = 1 /\ stream = <<>> /\ pos = 1 /\ st = <<>> /\ env = <<>>
Begin == /\ IsEvent("Begin")
         /\ stream' = Ev.b /\ pos' = 1
         /\ st' = UbxInitial(Ev.hnr = 1, {Ev.fails[i] : i \in 1..Len(Ev.fails)})
         /\ env' = [end |-> Ev.end, sender |-> Ev.sender]
Deliver ==
  LET f == F!NextFrame(stream, pos) IN
  /\ f # <<>>
  /\ LET b == SubSeq(stream, f[1] + 2, f[1] + f[2] - 3)
         h == Handle(st, env.sender, b)
     IN /\ Same("result", Len(b), Ev.ret)
        /\ MatchMsgs(h.outs, Ev.outs)
        /\ st' = h.st
        /\ pos' = f[1] + f[2]
  /\ UNCHANGED <<stream, env>>
Ended ==
  /\ F!NextFrame(stream, pos) = <<>>
  /\ Same("result at the end", IF env.end < 0 THEN env.end ELSE -1, Ev.ret)
  /\ Same("messages at the end", <<>>, Ev.outs)
  /\ pos' = Len(stream) + 1 /\ UNCHANGED <<stream, st, env>>
Call == IsEvent("Call") /\ (Deliver \/ Ended)
TraceSpec == Init /\ [][Begin \/ Call]_<<vars, l>>
=============================================================================
