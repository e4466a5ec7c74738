-------------------------- MODULE Trace_ProgramIo --------------------------
EXTENDS ProgramIo, TraceBase
Table(s) == [n \in {s[i][1] : i \in DOMAIN s} |-> (CHOOSE x \in {s[i] : i \in DOMAIN s} : x[1] = n)[2]]
VARIABLE line
StartEv == IsEvent("Start") /\ line' = [prog |-> Ev.prog, words |-> Ev.words, rc |-> 0, main |-> 0] /\ Start(Ev.pos, Table(Ev.files), Ev.stdin)
(* the converter gets the command line as it was given *)
MainEv == /\ IsEvent("Main") /\ phase = "runs" /\ Holds("once", line.main = 0)
          /\ Same("program", line.prog, Ev.prog) /\ Same("command line", line.words, Ev.argv)
          /\ line' = [line EXCEPT !.main = 1] /\ UNCHANGED vars
Upto(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
ReadEv == /\ IsEvent("Read") /\ Same(<<"read", "up to", Ev.want>>, Upto(rest, Len(Ev.b)), Ev.b)
          /\ Same("count", Len(Ev.b), Ev.ret) /\ Holds("end of input", Ev.b = <<>> => rest = <<>>)
          /\ Read(Ev.want, Ev.b) /\ UNCHANGED line
(* every write is taken whole: the converters do not try again *)
WriteEv == /\ IsEvent("Write") /\ Same("taken", Len(Ev.b), Ev.ret) /\ Write(Ev.b) /\ UNCHANGED line
ReturnEv == IsEvent("Return") /\ line' = [line EXCEPT !.rc = Ev.rc, !.main = 2] /\ UNCHANGED vars
ExitEv == /\ IsEvent("Exit") /\ Holds("ran", line.main = 2) /\ Exit(line.rc) /\ UNCHANGED line
          /\ Same("status", line.rc, Ev.rc) /\ Same("standard output", stdout', Ev.out)
          /\ Same("files", DOMAIN files', DOMAIN Table(Ev.files))
          /\ \A n \in DOMAIN files' : Same(<<"file", n>>, files'[n], Table(Ev.files)[n])
TraceInit == /\ l = 1 /\ line = [prog |-> "", words |-> <<>>, rc |-> 0, main |-> 0]
             /\ phase = "idle" /\ files = <<>> /\ stdin = <<>> /\ stdout = <<>>
             /\ place = <<>> /\ rest = <<>> /\ sent = <<>> /\ status = 0
TraceSpec == TraceInit /\ [][StartEv \/ MainEv \/ ReadEv \/ WriteEv \/ ReturnEv \/ ExitEv]_<<l, vars, line>>
=============================================================================
