--------------------------- MODULE Trace_ToolRtcm --------------------------
(* Executions of the program rtcm3tosbp, its command line included.            *)
EXTENDS Trace_Rtcm2Sbp, CommandLine
Run == /\ IsEvent("Run")
       /\ LET a == RtcmAsks(Ev.args, Ev.clock)
              cfg == [Ev.cfg EXCEPT !.obs = a.obs, !.time = a.time, !.mask = a.mask]
          IN /\ st' = Start(cfg)
             /\ env' = [run |-> a.run /\ ~Refused(cfg), ret |-> IF a.run /\ Refused(cfg) THEN 255 ELSE a.ret, says |-> a.says, ended |-> FALSE]
       /\ stream' = Ev.b /\ got' = 0 /\ pos' = 1
ToolRead == /\ IsEvent("Read") /\ Holds("reading", env.run /\ ~env.ended)
        /\ got' = got + Ev.n
        /\ LET h == Hear(SubSeq(stream, 1, got'), pos, st, <<>>) IN
             /\ MatchMsgs(h[2], Ev.outs)
             /\ st' = h[1] /\ pos' = h[3]
        /\ UNCHANGED <<stream, env>>
ToolEnd == /\ IsEvent("End") /\ Holds("reading", env.run /\ ~env.ended) /\ Same("read", Len(stream), got)
       /\ Same("messages at the end", <<>>, Ev.outs)
       /\ env' = [env EXCEPT !.ended = TRUE] /\ UNCHANGED <<stream, got, pos, st>>
(* what -t prints *)
Printed == /\ IsEvent("Text")
        /\ Same("text", IF env.says = <<>> THEN <<>> ELSE TimeText(env.says), Ev.t)
        /\ env' = [env EXCEPT !.says = <<>>] /\ UNCHANGED <<stream, got, pos, st>>
ToolExit == /\ IsEvent("Exit") /\ Same("exit status", env.ret, Ev.ret) /\ Same("not printed", <<>>, env.says)
        /\ Same("input left", IF env.run THEN 0 ELSE Len(stream), Ev.left)
        /\ Holds("ended before the input", env.run => env.ended)
        /\ UNCHANGED vars
ToolSpec == Init /\ [][Run \/ ToolRead \/ ToolEnd \/ Printed \/ ToolExit]_<<vars, l>>
=============================================================================
