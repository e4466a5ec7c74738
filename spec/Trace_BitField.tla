--------------------------- MODULE Trace_BitField ---------------------------
EXTENDS BitField, TraceBase
VARIABLE buf
BitsOf(b) == [i \in 1..(8 * Len(b)) |-> (b[((i - 1) \div 8) + 1] \div 2^(7 - ((i - 1) % 8))) % 2]
WordOf(v) == [i \in 1..64 |-> (v[4 - ((i - 1) \div 16)] \div 2^(15 - ((i - 1) % 16))) % 2]
KindOf(k) == <<"u", "ul", "s", "sl", "sm", "ul", "sl">>[k + 1]
Buffer == IsEvent("Buffer") /\ buf' = BitsOf(Ev.b)
Write == /\ IsEvent("Write")
         /\ buf' = Written(buf, KindOf(Ev.k), Ev.p, Ev.n, WordOf(Ev.v))
         /\ Same(<<"buffer", Ev.k, Ev.p, Ev.n, Ev.v>>, buf', BitsOf(Ev.b))
Read == /\ IsEvent("Read")
        /\ Same(<<"value", Ev.k, Ev.p, Ev.n>>, Value(buf, KindOf(Ev.k), Ev.p, Ev.n), WordOf(Ev.v))
        /\ UNCHANGED buf
(* fields one after the other, as long as there are bits *)
RECURSIVE InStream(_, _, _)
InStream(s, p, ws) ==
  IF ws = <<>> \/ p + Head(ws) > Len(s) THEN <<>>
  ELSE <<Value(s, "sm", p, Head(ws))>> \o InStream(s, p + Head(ws), Tail(ws))
Stream == /\ IsEvent("Stream")
          /\ LET x == InStream(BitsOf(Ev.b), 0, Ev.ws) IN
             /\ Same("fields read", Len(x), Len(Ev.vs))
             /\ \A i \in 1..Len(x) : Same(<<"field", i>>, x[i], WordOf(Ev.vs[i]))
             /\ Same("all there", Len(x) = Len(Ev.ws), Ev.ok = 1)
          /\ UNCHANGED buf
TraceSpec == l = 1 /\ buf = <<>> /\ [][Buffer \/ Write \/ Read \/ Stream]_<<l, buf>>
=============================================================================
