--------------------------- MODULE Trace_StaText ---------------------------
EXTENDS StaText, TraceBase
Known(key) == PrintT(<<"KNOWN", key>>)
VersionEv == /\ IsEvent("Version")
             /\ Same("result", 0, Ev.rc) /\ Same("version", Version(Ev.b, Ev.len), Ev.s)
ConfigEv == /\ IsEvent("Config")
            /\ Same("result", 0, Ev.rc) /\ Same("configuration", Config(Ev.b), Ev.s)
(* RF status: nothing that is cut off is accepted; what is accepted has the message's time and contents *)
StatusEv == /\ IsEvent("Status")
            /\ IF Ev.rc = 0 THEN /\ Holds("accepted though cut off", Ev.bits >= 58)
                                 /\ Same("time", <<GetU(Ev.b, 34, 16), GetU(Ev.b, 20, 14)>>, Ev.time)
                                 /\ Same("contents", GetU(Ev.b, 50, 8), Ev.mask)
               ELSE Ev.bits < 58 \/ GetU(Ev.b, 50, 8) # 0 \/ Ev.bits # 58 \/ Known("rfstatus-refused")
TraceSpec == l = 1 /\ [][VersionEv \/ ConfigEv \/ StatusEv]_l
=============================================================================
