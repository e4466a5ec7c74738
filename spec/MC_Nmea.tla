------------------------------- MODULE MC_Nmea -------------------------------
(* The timing of NMEA sentences, in a receiver's epochs: messages of an epoch in *)
(* any order, any of them lost, the fused ones between GROUP_META and SOLN_META, *)
(* observations in two parts.  Untidy: anything at any time.                     *)
EXTENDS NmeaTiming, TLC, Json
CONSTANTS Mode, Epochs, Depth, Tidy, Emit, Rates
VARIABLES st, ep, given, open, closed, count, since, log, gone
vars == <<st, ep, given, open, closed, count, since, log, gone>>
GnssIds == {UtcTimeGnss, PosGnss, GpsTimeGnss, VelGnss, Dops, AgeCorr}
FusedIds == {UtcTime, PosLlhCov}
Ids == IF Mode = "B" THEN {UtcTimeGnss, PosGnss, GpsTimeGnss, Hdg} \cup FusedIds
       ELSE IF Mode = "F" THEN FusedIds \cup {UtcTimeGnss, OrientEuler, Hdg} ELSE GnssIds
AnyIds == (0..5) \cup {Hdg, OrientEuler} \cup (9..14)
Tow(e) == 100 * e
Value(i, e) == CASE i \in {GroupMeta, SvAzEl, MeasState} -> <<>> [] i \in {GpsTime, GpsTimeGnss} -> <<Tow(e), 2000>> [] OTHER -> [Blank(i) EXCEPT ![1] = Tow(e)]
(* what does not vary in a mode's environment is always there *)
Missing == IF Mode = "G" \/ ~Tidy THEN {} ELSE {VelGnss, Dops, AgeCorr}
Begun(s, e) == [s EXCEPT !.msg = [i \in Messages |-> IF i \in Missing THEN Value(i, e) ELSE @[i]]]
Start == [Begun(NmeaInitial(Mode), 1) EXCEPT !.rate = [k \in Sentences |-> Rates[1 + (k % Len(Rates))]], !.period = 100]
Init == st = Start /\ ep = 1 /\ given = {} /\ open = FALSE /\ closed = FALSE /\ count = [k \in Sentences |-> 0] /\ since = (Mode = "F")
        /\ log = <<>> /\ gone = {}
Do(s, what) ==
  LET ks == DueNow(s) IN
  /\ st' = Sent(s, ks) /\ gone' = ks /\ count' = [k \in Sentences |-> IF k \in ks /\ EpochOf(s, k) = Tow(ep) THEN count[k] + 1 ELSE count[k]]
  /\ log' = IF Emit THEN Append(log, what) ELSE log
GiveAt(i, e) == Do(Take(st, i, Value(i, e)), [k |-> "msg", id |-> i, ep |-> e])
Give == \E i \in Ids \ given :
  /\ i \in FusedIds => open
  /\ GiveAt(i, ep) /\ given' = given \cup {i} /\ UNCHANGED <<ep, open, closed, since>>
Open == /\ Mode # "G" /\ ~open /\ ~closed /\ GiveAt(GroupMeta, ep) /\ open' = TRUE /\ UNCHANGED <<ep, given, closed, since>>
Close == /\ open /\ GiveAt(SolnMeta, ep) /\ open' = FALSE /\ closed' = TRUE /\ UNCHANGED <<ep, given, since>>
(* observations of the epoch, or of the one before: two parts *)
Obs(e, seq, who) == LET t == <<2000, Tow(e)>> IN
  IF Follows(st, t, seq) THEN Do(TakeObs(st, t, seq, <<>>), [k |-> "obs", seq |-> seq, ep |-> e])
  ELSE /\ UNCHANGED <<st, count>> /\ gone' = {} /\ log' = IF Emit THEN Append(log, [k |-> "obs", seq |-> seq, ep |-> e]) ELSE log
ObsId(part, d) == 100 + (2 * d) + part
Observe == /\ Mode = "G"
           /\ \E part \in 0..1, d \in {0, 1} : ep > d /\ ObsId(part, d) \notin given
                /\ Obs(ep - d, 32 + part, 0) /\ given' = given \cup {ObsId(part, d)}
           /\ UNCHANGED <<ep, open, closed, since>>
Next1 == /\ ep < Epochs /\ ~open /\ ep' = ep + 1 /\ st' = Begun(st, ep + 1) /\ given' = {} /\ closed' = FALSE /\ count' = [k \in Sentences |-> 0]
         /\ since' = st.fused /\ gone' = {} /\ UNCHANGED <<open, log>>
Untidy == /\ Len(log) < Depth
       /\ \/ \E w \in 1..8 : \E i \in {RandomElement(AnyIds)}, d \in {RandomElement({-1, 0, 1})} : GiveAt(i, IF ep + d < 1 THEN 1 ELSE ep + d) /\ ep' = IF d = 1 /\ ep < Epochs THEN ep + 1 ELSE ep
          \/ \E w \in 1..2 : \E part \in {RandomElement(0..2)}, total \in {RandomElement(1..3)}, d \in {RandomElement({-1, 0, 1})} : Obs(IF ep + d < 1 THEN 1 ELSE ep + d, (16 * total) + part, 0) /\ UNCHANGED ep
       /\ UNCHANGED <<given, open, closed, since>>
(* a receiver that is mostly regular *)
Epoch == /\ Len(log) < Depth /\ ~Tidy /\ ep < Epochs
         /\ ep' = ep + 1 /\ UNCHANGED <<st, given, open, closed, count, since, gone>> /\ log' = Append(log, [k |-> "epoch", ep |-> ep + 1])
Tell == /\ PrintT("GEN " \o ToJson(log)) /\ log' = Append(log, [k |-> "end"]) /\ UNCHANGED <<st, ep, given, open, closed, count, since, gone>>
Next == IF Emit /\ Len(log) >= Depth THEN Len(log) = Depth /\ Tell
        ELSE IF Tidy THEN Give \/ Open \/ Close \/ Observe \/ Next1 ELSE Untidy \/ Epoch
R1 == <<1>>
R12 == <<1, 2>>
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
(* once in an epoch; in the one in which the fused solution appears, once of either *)
Once == \A k \in Sentences : count[k] <= IF since = st.fused THEN 1 ELSE 2
(* the GNSS solution's sentences: if and when all of the epoch's messages have come *)
OnRate(k) == Tow(ep) % (100 * st.rate[k]) < 50
GnssTrue == ~st.fused =>
  /\ \A k \in OfSolution \ {GSA} : count[k] = IF Ids \cap GnssIds \subseteq given /\ OnRate(k) /\ Mode # "F" THEN 1 ELSE 0
  /\ count[ZDA] = IF UtcTimeGnss \in given /\ OnRate(ZDA) THEN 1 ELSE 0
(* .. and a list of satellites that is whole and not older; it may be the epoch's or one of the future *)
ObsWhole(d) == ObsId(0, d) \in given /\ ObsId(1, d) \in given
GsaTrue == (Mode = "G" /\ OnRate(GSA)) =>
  /\ count[GSA] = 1 => GnssIds \subseteq given /\ ObsWhole(0)
(* the fused solution's sentences: when its group is whole *)
FusedTrue == (st.fused /\ since) =>
  \A k \in Sentences \ OfGnssOnly : count[k] = IF closed /\ UtcTime \in given /\ OnRate(k) THEN 1 ELSE 0
NotInside == \A k \in gone : (st.fused /\ k \notin OfGnssOnly) => ~open
(* asked for the fused solution, nothing of the GNSS-only one *)
FusedOnly == Mode = "F" => \A k \in OfGnssOnly : count[k] = 0
HdgTrue == Mode = "B" => count[HDT] = IF Hdg \in given /\ UtcTimeGnss \in given /\ OnRate(HDT) THEN 1 ELSE 0
=============================================================================
