----------------------------- MODULE NmeaTiming -----------------------------
(***************************************************************************)
(* The SBP to NMEA converter: when a sentence is sent.                     *)
(* The converter keeps the latest message of every kind; a sentence is due *)
(* once in an epoch, when all that it is made of has come.  It serves the  *)
(* GNSS-only solution, the fused one (whose messages come in a group that  *)
(* a GROUP_META opens and a SOLN_META closes), or the best there is: GNSS  *)
(* until the first group shows that there is a fused solution.             *)
(* A message is a sequence of values, its time of week first.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
(* messages *)
GpsTime == 0  UtcTime == 1  PosLlhCov == 2  VelNed == 3  Dops == 4  AgeCorr == 5  Hdg == 6  SvAzEl == 7  MeasState == 8
GroupMeta == 9  SolnMeta == 10  GpsTimeGnss == 11  UtcTimeGnss == 12  PosGnss == 13  VelGnss == 14  OrientEuler == 15
Messages == 0..15
(* sentences, in the order in which they are sent *)
GGA == 0  RMC == 1  VTG == 2  HDT == 3  GLL == 4  ZDA == 5  GSA == 6  GST == 7  GSV == 8  PUBX == 9  THS == 10
Sentences == 0..10
OfSolution == {GGA, RMC, VTG, GLL, GSA, GST, PUBX}
PartsOf(k) == CASE k \in OfSolution -> {PosGnss, GpsTimeGnss, VelGnss, Dops, AgeCorr}
                [] k = HDT -> {Hdg} [] k = THS -> {OrientEuler, PosGnss} [] OTHER -> {}
OfGnssOnly == {HDT, GSA, GSV}

F8 == <<0, 0, 0, 0>>
F4 == <<0, 0>>
Blank(i) == CASE i \in {GpsTime, GpsTimeGnss, AgeCorr} -> <<0, 0>>
  [] i \in {UtcTime, UtcTimeGnss} -> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
  [] i \in {PosLlhCov, PosGnss} -> <<0, F8, F8, F8, F4, F4, F4, F4, 0, 0>>
  [] i \in {VelNed, VelGnss} -> <<0, 0, 0, 0, 0>>
  [] i = Dops -> <<0, 0, 0, 0, 0, 0>> [] i = SolnMeta -> <<0, 0, 0, 0>>
  [] i \in {Hdg, OrientEuler} -> <<0, 0, 0>> [] OTHER -> <<>>
NoObs == [list |-> <<>>, count |-> 0, total |-> 0, t |-> <<0, 0>>]
NmeaInitial(mode) ==
  [mode |-> mode, fused |-> mode = "F", whole |-> FALSE, msg |-> [i \in Messages |-> Blank(i)], obs |-> NoObs,
   last |-> [k \in Sentences |-> 0], rate |-> [k \in Sentences |-> 0], period |-> 0, base |-> 0, cog |-> 100, still |-> 100]

TowOf(st, i) == IF i \in {SvAzEl, MeasState, GroupMeta} THEN 0 ELSE st.msg[i][1]
(* in GNSS mode the solution's plain messages are the GNSS-only solution's *)
StoredAs(st, i) == IF st.mode = "G" /\ i <= VelNed THEN i + GpsTimeGnss ELSE i
(* a list that names a GLONASS satellite by its frequency *)
IsGloCode(c) == c \in {3, 4, 29, 30}
OddList(v) == \E j \in 1..(Len(v) \div 3) : IsGloCode(v[3 * j - 1]) /\ v[3 * j - 2] > 28
Take(st, id, v) ==
  LET i == StoredAs(st, id)
      fused == st.fused \/ (st.mode = "B" /\ i = GroupMeta)
      whole == IF fused /\ i \in {GroupMeta, SolnMeta} THEN i = SolnMeta ELSE st.whole
  IN [st EXCEPT !.fused = fused, !.whole = whole, !.msg[i] = IF i = MeasState /\ OddList(v) THEN @ ELSE v]
Discarded(id, v) == id = MeasState /\ OddList(v)

(* observations come in numbered parts; one that does not continue the sequence is left out *)
Follows(st, t, seq) == seq % 16 = 0 \/ (t = st.obs.t /\ seq % 16 = st.obs.count + 1)
RECURSIVE Used(_)
Used(o) == IF o = <<>> THEN <<>> ELSE (IF Head(o)[3] < 128 THEN <<<<Head(o)[1], Head(o)[2]>>>> ELSE <<>>) \o Used(Tail(o))
TakeObs(st, t, seq, o) ==
  [st EXCEPT !.obs = [list |-> (IF seq % 16 = 0 THEN <<>> ELSE st.obs.list) \o Used(o), count |-> seq % 16, total |-> seq \div 16, t |-> t]]
Whole(obs) == obs.count + 1 = obs.total
NotOlder(t, tow, wn) == t[1] > wn \/ (t[1] = wn /\ t[2] >= tow)

FusedNow(st, k) == st.fused /\ k \notin OfGnssOnly
EpochOf(st, k) == TowOf(st, IF FusedNow(st, k) THEN UtcTime ELSE UtcTimeGnss)
Ready(st, k) ==
  /\ ~(st.mode = "F" /\ k \in OfGnssOnly)
  /\ st.last[k] # EpochOf(st, k)
  /\ IF FusedNow(st, k) THEN st.whole
     ELSE /\ \A i \in PartsOf(k) : TowOf(st, i) = EpochOf(st, k)
          /\ k = GSA => Whole(st.obs) /\ NotOlder(st.obs.t, st.msg[GpsTimeGnss][1], st.msg[GpsTimeGnss][2])
(* every rate-th solution, counted from the start of the week *)
AtRate(st, k) == st.rate[k] # 0 /\ st.period > 0 /\ EpochOf(st, k) % (st.period * st.rate[k]) < st.period \div 2
DueNow(st) == {k \in Sentences : Ready(st, k) /\ AtRate(st, k)}
Sent(st, ks) == [st EXCEPT !.last = [k \in Sentences |-> IF k \in ks THEN EpochOf(st, k) ELSE @[k]]]
RECURSIVE InOrder(_, _)
InOrder(ks, k) == IF k > 10 THEN <<>> ELSE (IF k \in ks THEN <<k>> ELSE <<>>) \o InOrder(ks, k + 1)
=============================================================================
