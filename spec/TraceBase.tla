----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace and consuming it event by event.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Explain
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
