----------------------------- MODULE MC_R2SEpoch -----------------------------
(* The assembly of epochs, with every short sequence of observation messages: *)
(* legacy GPS and GLONASS messages and MSMs of a few times and two stations.  *)
(* An observation is the token <<time, station, serial number>>.              *)
EXTENDS RtcmToSbp
CONSTANTS Depth, Steps, PerMessage
VARIABLES st, now, n, sent, lost
vars == <<st, now, n, sent, lost>>
Cfg == [obs |-> 0, time |-> <<2100, 1000>>, mask |-> <<>>, bias |-> <<>>, glo |-> <<0, 0, 0, 0>>]
Init == /\ st = [Start(Cfg) EXCEPT !.leap = 18] /\ now = 1000000 /\ n = 0 /\ sent = <<>> /\ lost = {}
T == <<2100, now>>
Token(stn, k) == <<X(L(now)), X(L(stn)), X(L((100 * n) + k)), XI(0), XI(0), XI(0), XI(0), XI(0)>>
Tokens(stn) == [k \in 1..PerMessage |-> Token(stn, k)]
ObsIn(ms) == {i \in 1..Len(ms) : ms[i].k = "Obs"}
(* what was buffered before and is neither buffered nor sent afterwards *)
Held(s) == {s.obs[i] : i \in 1..Len(s.obs)}
Out(ms) == UNION {{SubSeq(ms[i].f, 6 + (8 * (j - 1)), 13 + (8 * (j - 1))) : j \in 1..((Len(ms[i].f) - 5) \div 8)} : i \in ObsIn(ms)}
Step(s1) ==
  /\ st' = [s1 EXCEPT !.outs = <<>>]
  /\ sent' = sent \o SelectSeq(s1.outs, LAMBDA m : m.k = "Obs")
  /\ lost' = lost \cup ((Held(st)) \ (Held(s1) \cup Out(s1.outs)))
  /\ n' = n + 1
LegacyMsg(stn, glo, last) ==
  LET prev == IF glo THEN st.glo ELSE st.gps IN
  IF MsmActive(st, T) \/ (prev # NoTime /\ ~Later(T, prev)) THEN st
  ELSE LET s0 == IF glo THEN [st EXCEPT !.glo = T] ELSE [st EXCEPT !.gps = T]
           s1 == IF OtherEpoch(s0, T, stn) THEN Flush(s0) ELSE s0
           s2 == [s1 EXCEPT !.open = T, !.stn = stn, !.obs = @ \o Tokens(stn)]
       IN IF last THEN Flush(s2) ELSE s2
MsmMsg(stn, last) ==
  LET s1 == [MsmOpen(st, T, stn) EXCEPT !.obs = @ \o Tokens(stn)] IN IF last THEN Flush(s1) ELSE s1
RecvLegacy == n < Depth /\ \E stn \in {1, 2}, glo, last \in BOOLEAN : Step(LegacyMsg(stn, glo, last)) /\ UNCHANGED now
RecvMsm == n < Depth /\ \E stn \in {1, 2}, last \in BOOLEAN : Step(MsmMsg(stn, last)) /\ UNCHANGED now
RecvEnd == n < Depth /\ Step(Flush(st)) /\ UNCHANGED now
Tick == n < Depth /\ \E d \in Steps : now' = now + d /\ n' = n + 1 /\ UNCHANGED <<st, sent, lost>>
Next == RecvLegacy \/ RecvMsm \/ RecvEnd \/ Tick
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Ms(m) == m.f[2].v
Entries(m) == (Len(m.f) - 5) \div 8
(* a message carries observations of its own time and station only *)
Pure == \A i \in 1..Len(sent) : \A j \in 1..Entries(sent[i]) :
  LET e == SubSeq(sent[i].f, 6 + (8 * (j - 1)), 13 + (8 * (j - 1))) IN
  /\ MulAll(e[1].v, <<1000, 1000>>) = Ms(sent[i])
  /\ sent[i].s = Sender(ToInt(e[2].v))
(* an epoch goes out whole, its parts numbered from 0, of at most 14 *)
Parts(m) == ToInt(m.f[4].v)
Numbered == \A i \in 1..Len(sent) :
  LET p == Parts(sent[i]) IN
  /\ (p % 16) < (p \div 16)
  /\ Entries(sent[i]) <= PerMsg
  /\ (((p % 16) + 1) < (p \div 16)) => /\ Entries(sent[i]) = PerMsg /\ i < Len(sent)
                                 /\ Parts(sent[i + 1]) = p + 1 /\ Ms(sent[i + 1]) = Ms(sent[i]) /\ sent[i + 1].s = sent[i].s
  /\ ((p % 16) > 0) => i > 1 /\ Parts(sent[i - 1]) = p - 1
(* nothing is sent twice *)
AllTokens == FlattenSeq([i \in 1..Len(sent) |-> [j \in 1..Entries(sent[i]) |-> SubSeq(sent[i].f, 6 + (8 * (j - 1)), 8 + (8 * (j - 1)))]])
Once == \A i, j \in 1..Len(AllTokens) : i # j => AllTokens[i] # AllTokens[j]
(* what is lost, is lost when MSMs take over from legacy messages, or come back after a gap *)
LostOnlyThere == [][lost' # lost => (st'.msm = T /\ ~MsmActive(st, T))]_vars
(* the buffer holds one epoch of one station *)
OneEpoch == \A i \in 1..Len(st.obs) : st.open # NoTime /\ st.obs[i][1].v = L(st.open[2]) /\ st.obs[i][2].v = L(st.stn)
(* once an epoch has been left, no legacy message brings it back *)
=============================================================================
