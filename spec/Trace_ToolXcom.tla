--------------------------- MODULE Trace_ToolXcom --------------------------
(* Executions of the program ixcom2sbp: what the frames delivered so far stand   *)
(* for is written before the program reads on; it ends with its input.         *)
EXTENDS Trace_Ixcom, CommandLine
RECURSIVE Hear(_, _, _, _)
Hear(s, p, state, outs) ==
  LET f == F!NextFrame(s, p) IN
  IF f = <<>> THEN <<state, outs, p>>
  ELSE LET h == XcomHandle(state, env.sender, SubSeq(s, f[1], f[1] + f[2] - 1)) IN Hear(s, f[1] + f[2], h.st, outs \o h.outs)
Run == /\ IsEvent("Run")
       /\ LET a == XcomAsks(Ev.args) IN
          /\ env' = [run |-> a.run, sender |-> L(a.sender), got |-> 0, ended |-> FALSE]
          /\ st' = XcomInitial
       /\ stream' = Ev.b /\ pos' = 1
Read == /\ IsEvent("Read") /\ Holds("reading", env.run /\ ~env.ended)
        /\ LET got == env.got + Ev.n  h == Hear(SubSeq(stream, 1, got), pos, st, <<>>) IN
           /\ MatchMsgs(h[2], Ev.outs)
           /\ env' = [env EXCEPT !.got = got] /\ st' = h[1] /\ pos' = h[3]
        /\ UNCHANGED stream
End == /\ IsEvent("End") /\ Holds("reading", env.run /\ ~env.ended) /\ Same("read", Len(stream), env.got)
       /\ Same("messages at the end", <<>>, Ev.outs)
       /\ env' = [env EXCEPT !.ended = TRUE] /\ UNCHANGED <<stream, pos, st>>
Exit == /\ IsEvent("Exit") /\ Same("exit status", 0, Ev.ret)
        /\ Same("input left", IF env.run THEN 0 ELSE Len(stream), Ev.left)
        /\ Holds("ended before the input", env.run => env.ended)
        /\ UNCHANGED vars
ToolSpec == Init /\ [][Run \/ Read \/ End \/ Exit]_<<vars, l>>
=============================================================================
