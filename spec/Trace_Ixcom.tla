----------------------------- MODULE Trace_Ixcom -----------------------------
(* Executions of the iXCOM to SBP converter and of the iXCOM library.          *)
EXTENDS IxcomToSbp, TraceBase
VARIABLES stream, pos, st, env
vars == <<stream, pos, st, env>>
LenAtX(s, i) == s[i + 4] + 256 * s[i + 5]
P == INSTANCE IxcomProto WITH Sync <- 126, LenAt <- LenAtX, HdrLen <- 16, FootLen <- 4, MaxLen <- 4095
ClassifyX(s, i) == P!IxcomClassify(s, i)
F == INSTANCE Framing WITH Classify <- ClassifyX, Rescan <- FALSE, unread <- <<>>, buf <- <<>>, ended <- FALSE, out <- <<>>
Init == l = 1 /\ stream = <<>> /\ pos = 1 /\ st = <<>> /\ env = <<>>
Begin == /\ IsEvent("Begin") /\ stream' = Ev.b /\ pos' = 1 /\ st' = XcomInitial
         /\ env' = [end |-> Ev.end, sender |-> Ev.sender]
Deliver ==
  LET f == F!NextFrame(stream, pos) IN
  /\ f # <<>>
  /\ LET b == SubSeq(stream, f[1], f[1] + f[2] - 1)
         h == XcomHandle(st, env.sender, b)
     IN /\ Same("result", f[2], Ev.ret) /\ MatchMsgs(h.outs, Ev.outs)
        /\ st' = h.st /\ pos' = f[1] + f[2]
  /\ UNCHANGED <<stream, env>>
Ended ==
  /\ F!NextFrame(stream, pos) = <<>>
  /\ Same("result at the end", env.end, Ev.ret) /\ Same("messages at the end", <<>>, Ev.outs)
  /\ pos' = Len(stream) + 1 /\ UNCHANGED <<stream, st, env>>
Call == IsEvent("Call") /\ (Deliver \/ Ended)
(* the library alone: t says which decoder was called *)
Lib == /\ IsEvent("Lib")
       /\ LET ok == Valid(Ev.b) /\ Byte(Ev.b, 1) = Ev.t IN
          /\ Same("decoded", ok, Ev.rc = 0)
          /\ ok => /\ Same("fields", Decoded(Ev.b), Ev.f)
                   /\ Same("encoded", SubSeq(Ev.b, 1, SizeOf(Ev.t)), Ev.enc)
       /\ UNCHANGED vars
Sum == IsEvent("Sum") /\ Same("checksum", Crc16(Ev.b), Ev.crc) /\ UNCHANGED vars
TraceSpec == Init /\ [][Begin \/ Call \/ Lib \/ Sum]_<<vars, l>>
=============================================================================
