--------------------------- MODULE Trace_UbxCodec ---------------------------
(* Recorded decodings, re-encodings and checksums against the layouts.        *)
EXTENDS UbxCodec, TraceBase
Dec == /\ IsEvent("Ubx")
       /\ LET d == UbxDecode(Ev.b, Ev.t) IN
            /\ Same(<<"result", Ev.t>>, d.rc, Ev.rc)
            /\ d.rc = Ok =>
                 /\ Same(<<"number of fields", Ev.t>>, Len(d.f), Len(Ev.f))
                 /\ \A i \in 1..Len(d.f) : Same(<<"field", Ev.t, i>>, d.f[i], Ev.f[i])
                 \* the message's values encode to the bytes they were read from
                 /\ Same(<<"encoded", Ev.t>>, SubSeq(Ev.b, 1, d.n), Ev.enc)
Sum == /\ IsEvent("Sum")
       /\ Same("checksum", Fletcher8(Ev.b), Ev.ck)
TraceSpec == l = 1 /\ [][Dec \/ Sum]_l
=============================================================================
