---------------------------- MODULE Trace_RtcmDec ----------------------------
(* Recorded decodings and encodings against the layouts.                      *)
EXTENDS RtcmEncode, TraceBase
Dec == /\ IsEvent("Dec")
       /\ LET d == Decode(Ev.b, Ev.t) IN
            IF d.ok THEN /\ Same(<<"result", Ev.t>>, 0, Ev.rc)
                         /\ Same(<<"number of fields", Ev.t>>, Len(d.f), Len(Ev.f))
                         /\ \A i \in 1..Len(d.f) : Same(<<"field", Ev.t, i>>, d.f[i], Ev.f[i])
            ELSE Holds(<<"accepted a bad message", Ev.t>>, Ev.rc # 0)
Enc == /\ IsEvent("Enc")
       /\ EncRel(Ev.b, Ev.t, Ev.f)
TraceSpec == l = 1 /\ [][Dec \/ Enc]_l
=============================================================================
