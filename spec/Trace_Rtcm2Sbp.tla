--------------------------- MODULE Trace_Rtcm2Sbp ---------------------------
(* Executions of the RTCM to SBP converter: every read makes the frames it    *)
(* completes heard, and the messages they give are sent before the next read. *)
EXTENDS RtcmToSbp, TraceBase
VARIABLES stream, got, pos, st, env
vars == <<stream, got, pos, st, env>>
LenAtR(s, i) == (256 * s[i + 1] + s[i + 2]) % 1024
SumOkR(s, i, n) == LET q == i + 3 + n IN
  Crc24(SubSeq(s, i, q - 1)) = ((256 * s[q]) + s[q + 1]) * 256 + s[q + 2]
ClassifyR(s, i) ==
  IF Len(s) - i + 1 < 7 THEN [k |-> "wait"]
  ELSE IF s[i] # 211 \/ LenAtR(s, i) = 0 THEN [k |-> "skip", n |-> 1]
  ELSE IF i + LenAtR(s, i) + 5 > Len(s) THEN [k |-> "wait"]
  ELSE IF SumOkR(s, i, LenAtR(s, i)) THEN [k |-> "frame", n |-> LenAtR(s, i) + 6]
  ELSE [k |-> "skip", n |-> 1]
F == INSTANCE Framing WITH Classify <- ClassifyR, Rescan <- FALSE, unread <- <<>>, buf <- <<>>, ended <- FALSE, out <- <<>>
(* everything the frames of s from p on say; <<state, messages, position after the last frame>> *)
RECURSIVE Hear(_, _, _, _)
Hear(s, p, state, outs) ==
  LET f == F!NextFrame(s, p) IN
  IF f = <<>> THEN <<state, outs, p>>
  ELSE LET n == Handle(state, SubSeq(s, f[1] + 3, f[1] + f[2] - 4)) IN Hear(s, f[1] + f[2], n, outs \o n.outs)

Init == l = 1 /\ stream = <<>> /\ got = 0 /\ pos = 1 /\ st = <<>> /\ env = <<>>
Begin == /\ IsEvent("Begin")
         /\ stream' = Ev.b /\ got' = 0 /\ pos' = 1
         /\ st' = Start(Ev.cfg)
         /\ env' = [end |-> Ev.end, cfg |-> Ev.cfg, ended |-> FALSE]
Read == /\ IsEvent("Read") /\ ~Refused(env.cfg) /\ ~env.ended
        /\ got' = got + Ev.n
        /\ LET h == Hear(SubSeq(stream, 1, got'), pos, st, <<>>) IN
             /\ MatchMsgs(h[2], Ev.outs)
             /\ st' = h[1] /\ pos' = h[3]
        /\ UNCHANGED <<stream, env>>
End == /\ IsEvent("End") /\ got = Len(stream) /\ ~Refused(env.cfg)
       /\ Same("messages at the end", <<>>, Ev.outs)
       /\ env' = [env EXCEPT !.ended = TRUE]
       /\ UNCHANGED <<stream, got, pos, st>>
Exit == /\ IsEvent("Exit")
        /\ IF Refused(env.cfg) THEN Ev.ret # 0 /\ got = 0 ELSE env.ended
        /\ env' = [env EXCEPT !.ended = TRUE] /\ UNCHANGED <<stream, got, pos, st>>
TraceSpec == Init /\ [][Begin \/ Read \/ End \/ Exit]_<<vars, l>>
=============================================================================
