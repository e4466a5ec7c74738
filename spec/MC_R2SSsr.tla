------------------------------ MODULE MC_R2SSsr ------------------------------
(* Separate orbit and clock corrections of one system in every order: which   *)
(* combined corrections come out.                                             *)
EXTENDS RtcmToSbp
CONSTANTS Depth, Sats
VARIABLES st, hist
vars == <<st, hist>>
Cfg == [obs |-> 0, time |-> <<2100, 1000>>, mask |-> <<>>, bias |-> <<>>, glo |-> <<0, 0, 0, 0>>]
Init == st = [Start(Cfg) EXCEPT !.leap = 18] /\ hist = <<>>
Lists == {<<>>} \cup {<<s>> : s \in Sats} \cup {<<a, b>> : a, b \in Sats}
(* header fields: number, epoch, system, update interval, .., issue, .., satellites; values tell which message it was *)
Header(e, iod, sats) == <<L(0), L(e), L(0), L(2), L(0), L(0), L(iod), L(0), L(0), L(0), L(0), L(Len(sats))>>
Orbit(e, iod, sats, k) == Header(e, iod, sats) \o FlattenSeq([i \in 1..Len(sats) |-> <<L(sats[i]), L(k), L(0)>> \o [j \in 1..6 |-> L(100 * k)]])
Clock(e, iod, sats, k) == Header(e, iod, sats) \o FlattenSeq([i \in 1..Len(sats) |-> <<L(sats[i])>> \o [j \in 1..3 |-> L(k)]])
Recv == /\ Len(hist) < Depth
        /\ \E kind \in {"orbit", "clock"}, e \in {1000, 1001}, iod \in {1, 2}, sats \in Lists :
             LET k == Len(hist) + 1
                 h == SsrOrbit([st EXCEPT !.outs = <<>>], IF kind = "orbit" THEN Orbit(e, iod, sats, k) ELSE Clock(e, iod, sats, k), kind)
             IN /\ st' = [h EXCEPT !.outs = <<>>]
                /\ hist' = Append(hist, [kind |-> kind, e |-> e, iod |-> iod, sats |-> sats, outs |-> h.outs])
Spec == Init /\ [][Recv]_vars
OrbitNo(m) == m.f[7].v[1]
ClockNo(m) == m.f[14].v[1]
SatNo(m) == m.f[3].v[1]
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
(* a combined correction joins an orbit and a clock of the same satellite, epoch and issue, from the two latest messages *)
Joined == \A i \in 1..Len(hist) : \A j \in 1..Len(hist[i].outs) :
  LET m == hist[i].outs[j] o == OrbitNo(m) c == ClockNo(m) IN
  /\ {o, c} = {i, i - 1}
  /\ hist[o].kind = "orbit" /\ hist[c].kind = "clock"
  /\ hist[o].e = hist[c].e /\ hist[o].iod = hist[c].iod
  /\ Has(hist[o].sats, SatNo(m)) /\ Has(hist[c].sats, SatNo(m))
  /\ m.f[2].v = L(hist[o].e)
(* an orbit directly followed by its clock (or the other way round) gives every satellite they share,
   unless the first of the two has already been joined with the one before it *)
Free(i) == i = 0 \/ hist[i].outs = <<>>
Match2(i) == /\ hist[i].kind # hist[i - 1].kind /\ hist[i].e = hist[i - 1].e /\ hist[i].iod = hist[i - 1].iod
RECURSIVE Used(_)
Used(i) == i >= 2 /\ Match2(i) /\ ~Used(i - 1)
Shared == \A i \in 2..Len(hist) : Used(i) =>
  \A s \in Sats : (Has(hist[i].sats, s) /\ Has(hist[i - 1].sats, s)) => \E j \in 1..Len(hist[i].outs) : SatNo(hist[i].outs[j]) = s
=============================================================================
