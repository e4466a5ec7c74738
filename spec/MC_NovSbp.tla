------------------------------ MODULE MC_NovSbp ------------------------------
(* The NovAtel to SBP converter over short histories of logs: times around a   *)
(* week's end, in any order.                                                   *)
EXTENDS NovToSbp, TLC, Json
CONSTANTS Depth, Logs, Steps, Starts, Emit
MCSteps == {-500, 0, 8, 1000}
MCStarts == {<<2100, 604799500>>, <<2100, 0>>}
VARIABLES st, now, log, sent, last
vars == <<st, now, log, sent, last>>
Zero(n) == [i \in 1..n |-> ZeroL]
U4(n) == <<n % 65536, n \div 65536>>
PosBody(type) == [i \in 1..24 |-> CASE i \in {1, 7} -> U4(0) [] i = 2 -> U4(type) [] i \in {6, 8, 9, 10, 15, 16} -> U4(0) [] i \in {3, 4, 5} -> ZeroL [] OTHER -> <<7>>]
VelBody == [i \in 1..8 |-> IF i \in {5, 6, 7} THEN ZeroL ELSE U4(0)]
AttBody == [i \in 1..6 |-> IF i \in {1, 6} THEN U4(3) ELSE ZeroL]
ImuBody(type, info) == [i \in 1..11 |-> CASE i = 1 -> <<info>> [] i = 2 -> <<type>> [] i = 3 -> <<0>> [] i = 4 -> ZeroL [] i = 5 -> U4(0) [] OTHER -> U4(100 * i)]
IdOf(k) == CASE k \in {"pos", "none"} -> IdBESTPOS [] k = "vel" -> IdBESTVEL [] k = "att" -> IdINSATT [] OTHER -> IdRAWIMUSX
BodyFor(k) == CASE k = "pos" -> PosBody(56) [] k = "none" -> PosBody(0) [] k = "vel" -> VelBody [] k = "att" -> AttBody
                [] k = "imu" -> ImuBody(5, 4) [] k = "bad" -> ImuBody(5, 1) [] k = "odd" -> ImuBody(52, 0)
At(t, d) == LET m == t[2] + d IN IF m >= WeekMs THEN <<t[1] + 1, m - WeekMs>> ELSE IF m < 0 THEN <<t[1] - 1, m + WeekMs>> ELSE <<t[1], m>>
Init == st = NovInitial /\ now \in Starts /\ log = <<>> /\ sent = <<>> /\ last = <<>>
Log == \E k \in Logs, d \in Steps :
  LET t == At(now, d) h == NovHandle(st, IdOf(k), t[1], t[2], BodyFor(k)) IN
  /\ Len(log) < Depth
  /\ st' = h.st /\ now' = t /\ log' = Append(log, [k |-> k, wn |-> t[1], ms |-> t[2]])
  /\ sent' = sent \o h.outs /\ last' = h.outs
Spec == Init /\ [][Log]_vars
Whole == Emit /\ Len(log) = Depth => PrintT("GEN " \o ToJson(log))
---------------------------------------------------------------------------
Times(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i].k = SbpGpsTime)
Val(d) == ToInt(d.v)
(* the last time sent before a position or velocity is its own *)
TimeFirst == \A i \in 1..Len(last) : last[i].k \in {SbpPosLlh, SbpVelNed} =>
  LET ts == Times(sent) e == log[Len(log)] IN
  ts # <<>> /\ LET m == sent[ts[Len(ts)]] IN Val(m.f[1]) = e.wn /\ Val(m.f[2]) = e.ms
(* and no time is sent twice in a row *)
TimesDiffer == LET ts == Times(sent) IN \A i \in 2..Len(ts) : sent[ts[i]].f # sent[ts[i - 1]].f
(* a velocity has the fix of the last position, when they are of one epoch *)
FlagsTrue == \A i \in 1..Len(last) : last[i].k = SbpVelNed =>
  LET e == log[Len(log)] ps == SelectSeq([i2 \in 1..Len(log) |-> i2], LAMBDA j : log[j].k \in {"pos", "none"})
  IN Val(last[i].f[8]) = IF ps # <<>> /\ log[ps[Len(ps)]].ms = e.ms THEN (IF log[ps[Len(ps)]].k = "pos" THEN 12 ELSE 0) ELSE 0
Imus == SelectSeq([i \in 1..Len(log) |-> i], LAMBDA i : log[i].k \in {"imu", "bad", "odd"})
Between2(a, b) == ((b.wn - a.wn) * WeekMs) + (b.ms - a.ms)
(* the rate of a sample is that of its distance from the last one, also over a week's end *)
RateTrue == log # <<>> /\ log[Len(log)].k = "imu" /\ last # <<>> /\ last[1].k = SbpAngularRate /\ Len(Imus) >= 2 =>
  LET a == log[Imus[Len(Imus) - 1]] b == log[Len(log)] d == Between2(a, b) IN
  (d > 0 /\ a.ms # 0 /\ b.ms # 0 => last[1].f[2].n = d) /\ (d <= 0 => last[1].f[2].n = 1)
(* descriptions of the unit are a second apart, and do come every second *)
AuxAt == SelectSeq([i \in 1..Len(log) |-> i], LAMBDA i : log[i].k \in {"imu", "bad", "odd"})
AuxSpaced == [][LET was == st.aux is == st'.aux IN
  (was # is /\ was[2] # 0 /\ is[2] # 0) => ((is[1] - was[1]) * WeekMs) + (is[2] - was[2]) >= 1000]_vars
AuxComes == log # <<>> /\ log[Len(log)].k \in {"imu", "bad", "odd"} =>
  LET e == log[Len(log)] IN (e.ms # 0 /\ st.aux[2] # 0) => (st.aux = <<e.wn, e.ms>> \/ ((e.wn - st.aux[1]) * WeekMs) + (e.ms - st.aux[2]) < 1000)
(* a sample that is marked wrong never becomes a rate *)
NoBad == log # <<>> /\ log[Len(log)].k = "bad" => \A i \in 1..Len(last) : last[i].k = SbpImuAux
=============================================================================
