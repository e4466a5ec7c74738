----------------------------- MODULE RtcmToSbp -----------------------------
(***************************************************************************)
(* The RTCM 3 to SBP converter as a state machine over the frames of a     *)
(* stream.  Handle(st, b) takes one message body and gives the next state  *)
(* and the SBP messages.  A state holds: truth (the best known GPS time,   *)
(* from GPS ephemerides), ref (the time used to complete the times of this *)
(* message), the times of the last observations and bias messages, the     *)
(* epoch being assembled (its time, station and observations), what has    *)
(* been warned about, GLONASS frequency channels, SSR corrections waiting  *)
(* for their counterpart, and the configuration.                           *)
(***************************************************************************)
EXTENDS R2SObs, R2SEph
MaxObs == 210                       \* observations per epoch in SBP
PerMsg == 14
(* station number (12 bits) or 0xF080 *)
Sender(stn) == L(61568 + stn - (IF (stn \div 128) % 2 = 1 THEN 128 ELSE 0))

(* cfg: obs (1: time comes from observations), time (<<>> or <<week, second>>), mask (constellations left out),
   bias (<<code, 1/64 m>>..), glo (1/64 m and 1/64 cycle per channel: L1 and L2 code, L1 and L2 phase) *)
Start(cfg) ==
  LET t == IF cfg.time = <<>> \/ cfg.time[1] < 1876 THEN NoTime ELSE <<cfg.time[1], 1000 * cfg.time[2]>> IN
  [truth |-> t, ref |-> t, leap |-> 0, gps |-> NoTime, glo |-> NoTime, bias |-> NoTime, msm |-> NoTime,
   open |-> NoTime, stn |-> 0, obs |-> <<>>, warned |-> {}, fcn |-> [s \in 1..28 |-> 255],
   ssr |-> [s \in 0..5 |-> <<>>], cfg |-> cfg, outs |-> <<>>]
(* observations as the source of time need one to begin with *)
Refused(cfg) == cfg.obs = 1 /\ Start(cfg).truth = NoTime

Emit(st, m) == [st EXCEPT !.outs = Append(@, m)]
EmitAll(st, ms) == [st EXCEPT !.outs = @ \o ms]
Text(level, stn, s) == Msg("Log", Sender(stn), <<XI(level)>> \o [i \in 1..Len(s) |-> XI(s[i])])
MsmUnfinished == <<82, 84, 67, 77, 32, 77, 83, 77, 32, 115, 101, 113, 117, 101, 110, 99, 101, 32, 110, 111, 116, 32, 112, 114, 111, 112, 101, 114, 108, 121, 32, 102, 105, 110, 105, 115, 104, 101, 100, 44, 32, 115, 101, 110, 100, 105, 110, 103, 32, 105, 110, 99, 111, 109, 112, 108, 101, 116, 101, 32, 109, 101, 115, 115, 97, 103, 101>>
TooMany == <<84, 111, 111, 32, 109, 97, 110, 121, 32, 82, 84, 67, 77, 32, 111, 98, 115, 101, 114, 118, 97, 116, 105, 111, 110, 115, 32, 114, 101, 99, 101, 105, 118, 101, 100, 33>>
NoMsm123 == <<77, 83, 77, 49, 45, 51, 32, 77, 101, 115, 115, 97, 103, 101, 115, 32, 99, 117, 114, 114, 101, 110, 116, 108, 121, 32, 110, 111, 116, 32, 115, 117, 112, 112, 111, 114, 116, 101, 100>>
Unsupported == <<85, 110, 115, 117, 112, 112, 111, 114, 116, 101, 100, 32, 99, 111, 100, 101, 32, 114, 101, 99, 101, 105, 118, 101, 100, 32, 102, 114, 111, 109, 32, 98, 97, 115, 101, 58, 32>>
UnknownCode == <<85, 110, 107, 110, 111, 119, 110, 32, 111, 114, 32, 85, 110, 114, 101, 99, 111, 103, 110, 105, 122, 101, 100, 32, 67, 111, 100, 101>>
GloL1P == <<71, 76, 79, 78, 65, 83, 83, 32, 76, 49, 80>>
GloL2P == <<71, 76, 79, 78, 65, 83, 83, 32, 76, 50, 80>>
LogHead == <<82, 84, 67, 77, 58, 32>>
WarnOnce(st, what, level, stn, text) ==
  IF what \in st.warned THEN st ELSE Emit([st EXCEPT !.warned = @ \cup {what}], Text(level, stn, text))

---------------------------------------------------------------------------
(* epochs *)
ObsMsg(st, i, n) ==
  LET part == SubSeq(st.obs, PerMsg * (i - 1) + 1, IF PerMsg * i < Len(st.obs) THEN PerMsg * i ELSE Len(st.obs)) IN
  Msg("Obs", Sender(st.stn), <<XI(st.open[1]), X(MulAll(L(st.open[2]), <<1000, 1000>>)), XI(0), XI(16 * n + i - 1), XI(Len(part))>>
                             \o FlattenSeq(part))
Closed(st) == [st EXCEPT !.open = NoTime, !.obs = <<>>]
(* an epoch that is open is sent, even when it has no observations *)
Flush(st) ==
  IF st.open = NoTime THEN st
  ELSE LET n == IF st.obs = <<>> THEN 1 ELSE (Len(st.obs) + PerMsg - 1) \div PerMsg
           s == EmitAll(st, [i \in 1..n |-> ObsMsg(st, i, n)])
       IN Closed(IF st.cfg.obs = 1 /\ st.open[2] # 0 THEN [s EXCEPT !.ref = st.open] ELSE s)
(* MSM streams suppress legacy observations *)
MsmActive(st, t) == st.msm # NoTime /\ LtL(DiffMs(t, st.msm), L(5000))
OtherEpoch(st, t, stn) == st.obs # <<>> /\ (st.open # t \/ Sender(st.stn) # Sender(stn))
BiasOf(st, code) ==
  LET s == SelectSeq(st.cfg.bias, LAMBDA e : e[1] = code) IN IF s = <<>> THEN 0 ELSE s[Len(s)][2]

(* the user does not want the observations of a system *)
LeftOut(st, sys) == \E i \in 1..Len(st.cfg.mask) : st.cfg.mask[i] = sys
(* one signal of a legacy observation: sat fields v, signal fields g *)
LegacySignal(st, t, v, g, first) ==
  IF ~(Bit(g[2][1], 1) /\ Bit(g[2][1], 2)) THEN st
  ELSE LET sv == ToInt(v[1]) p == g[1] # ZeroL IN
    IF Len(st.obs) >= MaxObs THEN st
    ELSE IF ~IsGlo(t)
    THEN LET code == IF sv \in 1..32 THEN (IF first THEN (IF p THEN 5 ELSE 0) ELSE IF p THEN 6 ELSE 1)
                     ELSE IF sv \in 40..58 /\ first THEN 2 ELSE -1
         IN IF code = -1 \/ LeftOut(st, IF code = 2 THEN 1 ELSE 0) THEN st
            ELSE [st EXCEPT !.obs = Append(@, LegacyOb(g, IF code = 2 THEN sv + 80 ELSE sv, code, 255, BiasOf(st, code)))]
    ELSE IF sv \notin 1..24 THEN st
    ELSE LET code == IF first THEN 3 ELSE 4
             w == IF ~p THEN st ELSE IF first THEN WarnOnce(st, "L1P", 4, 0, Unsupported \o GloL1P)
                                     ELSE WarnOnce(st, "L2P", 4, 0, Unsupported \o GloL2P)
         IN IF LeftOut(st, 2) THEN w ELSE [w EXCEPT !.obs = Append(@, LegacyOb(g, sv, code, ToInt(v[2]), BiasOf(st, code)))]
RECURSIVE LegacySats(_, _, _, _)
LegacySats(st, t, f, p) ==
  IF p > Len(f) THEN st
  ELSE LET v == SubSeq(f, p, p + 1)
           a == LegacySignal(st, t, v, SubSeq(f, p + 2, p + 7), TRUE)
           b == IF Dual(t) THEN LegacySignal(a, t, v, SubSeq(f, p + 8, p + 13), FALSE) ELSE a
       IN LegacySats(b, t, f, p + (IF Dual(t) THEN 14 ELSE 8))
AddLegacy(st, t, f, when) ==
  LET stn == ToInt(f[2])
      s1 == IF OtherEpoch(st, when, stn) THEN Flush(st) ELSE st
      s2 == LegacySats([s1 EXCEPT !.open = when, !.stn = stn], t, f, 8)
  IN IF f[4] = ZeroL THEN Flush(s2) ELSE s2
(* GLONASS observations count when they are of about the time of the GPS observations or of the input:
   from 30 s less than the leap seconds before to 30 s more than them after *)
About(st, t, u) == LeL(AbsL(SubL(DiffMs(t, u), L(1000 * st.leap))), L(30000))
GloSane(st, t) == About(st, t, st.ref) \/ (st.gps # NoTime /\ About(st, t, st.gps))
Legacy(st, t, f) ==
  LET tow == ToInt(f[3]) glo == IsGlo(t)
      when == IF glo THEN FromGlo(tow, st.leap, st.ref) ELSE InNearestWeek(tow, st.ref)
      last == IF glo THEN st.glo ELSE st.gps
  IN IF glo /\ (st.leap = 0 \/ ~GloSane(st, when)) THEN st
     ELSE IF MsmActive(st, when) \/ (last # NoTime /\ ~Later(when, last)) THEN st
     ELSE AddLegacy(IF glo THEN [st EXCEPT !.glo = when] ELSE [st EXCEPT !.gps = when], t, f, when)

(* one cell of an MSM: satellite and signal identifiers from 0 and 1 *)
MsmCellIn(st, c, sat, sig, info, g) ==
  LET code == MsmCode(c, sig) IN
  IF code = -1 THEN WarnOnce(st, "unknown", 4, 0, Unsupported \o UnknownCode)
  ELSE IF sat >= SatsOf(c) \/ LeftOut(st, SysOfCons(c)) \/ code \in NotInSbp \/ ~Bit(g[1][1], 1)
  THEN st
  ELSE LET fcn == IF c # "GLO" THEN 0 ELSE IF info # 255 THEN info ELSE st.fcn[sat + 1]
           k == IF c # "GLO" \/ fcn = 255 THEN 0 ELSE fcn - 7
           q == IF code = 3 THEN 1 ELSE 2
           gb(i) == IF c = "GLO" THEN st.cfg.glo[i] * k ELSE 0
       IN [st EXCEPT !.obs = Append(@, MsmOb(g, sat + 1, code, fcn, BiasOf(st, code) + gb(q), gb(q + 2)))]
RECURSIVE MsmCells(_, _, _, _, _, _, _)
MsmCells(st, b, t, f, cells, sats, k) ==
  IF k > Len(cells) THEN st
  ELSE LET ng == Ones(b, 137, 32)
           si == cells[k] \div ng
           sig == SetBits(b, 137, 32)[(cells[k] % ng) + 1] + 1
           g == SubSeq(f, 13 + 3 * Len(sats) + 7 * (k - 1) + 1, 13 + 3 * Len(sats) + 7 * k)
           n == MsmCellIn(st, MsmCons(t), sats[si + 1], sig, ToInt(f[13 + 3 * si + 1]), g)
       IN IF Len(st.obs) >= MaxObs /\ Len(n.obs) > MaxObs THEN Emit(st, Text(3, 0, TooMany))
          ELSE MsmCells(n, b, t, f, cells, sats, k + 1)
MsmOpen(st, when, stn) ==
  LET s0 == IF ~MsmActive(st, when) /\ st.obs # <<>> THEN Closed(st) ELSE st
      s1 == [s0 EXCEPT !.gps = when, !.glo = when, !.msm = when]
      s2 == IF OtherEpoch(s1, when, stn) THEN Flush(Emit(s1, Text(4, 0, MsmUnfinished))) ELSE s1
  IN [s2 EXCEPT !.open = when, !.stn = stn]
Msm(st, b, t, f) ==
  LET tow == ToInt(f[3]) c == MsmCons(t)
      when == IF c = "GLO" THEN FromGlo(tow, st.leap, st.ref)
              ELSE InNearestWeek(IF c = "BDS" THEN FromBds(tow) ELSE tow, st.ref)
  IN IF c = "GLO" /\ ~GloSane(st, when) THEN st
     ELSE IF st.gps = NoTime /\ when[2] = 0 THEN st
     ELSE MsmCells(MsmOpen(st, when, ToInt(f[2])), b, t, f, SetBits(b, 169, MsmDims(b).cm), SetBits(b, 73, 64), 1)

---------------------------------------------------------------------------
(* station messages, biases, texts *)
HasText(s, x) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
UpToNul(s) == LET z == {i \in 1..Len(s) : s[i] = 0} IN
  IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
(* code-phase biases of receivers, by their description, in 2 cm *)
Receivers == <<
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,65,83,72,41>>, 9, -735, 0, 0, -810>>,  \* Geo++ GNSMART (GLO=ASH)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,72,69,77,41>>, 9, -15, 0, 0, 175>>,  \* Geo++ GNSMART (GLO=HEM)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,74,65,86,41>>, 9, -75, 0, 0, -405>>,  \* Geo++ GNSMART (GLO=JAV)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,74,80,83,41>>, 9, -185, 0, 0, 35>>,  \* Geo++ GNSMART (GLO=JPS)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,76,69,73,41>>, 9, -3535, 0, 0, -3315>>,  \* Geo++ GNSMART (GLO=LEI)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,78,79,86,41>>, 9, -3535, 0, 0, -3315>>,  \* Geo++ GNSMART (GLO=NOV)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,78,65,86,41>>, 9, 20, 0, 0, 105>>,  \* Geo++ GNSMART (GLO=NAV)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,78,86,82,41>>, 9, 5835, 0, 0, 9350>>,  \* Geo++ GNSMART (GLO=NVR)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,83,69,80,41>>, 9, 0, 0, 0, 0>>,  \* Geo++ GNSMART (GLO=SEP)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,83,79,75,41>>, 9, -3535, 0, 0, -3315>>,  \* Geo++ GNSMART (GLO=SOK)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,84,80,83,41>>, 9, -128, 0, 0, 187>>,  \* Geo++ GNSMART (GLO=TPS)
    <<<<71,101,111,43,43,32,71,78,83,77,65,82,84,32,40,71,76,79,61,84,82,77,41>>, 9, 940, 0, 0, 1160>>,  \* Geo++ GNSMART (GLO=TRM)
    <<<<84,82,73,77,66,76,69>>, 15, 953, 953, 953, 953>>,  \* TRIMBLE
    <<<<65,83,72,84,69,67,72>>, 15, 953, 953, 953, 953>>,  \* ASHTECH
    <<<<76,69,73,67,65>>, 15, -3597, -3597, -3597, -3597>>,  \* LEICA
    <<<<78,79,86>>, 15, -3597, -3597, -3597, -3597>>,  \* NOV
    <<<<71,69,79,77,65,88>>, 15, -3597, -3597, -3597, -3597>>,  \* GEOMAX
    <<<<83,69,80,84>>, 15, 0, 0, 0, 0>>,  \* SEPT
    <<<<84,80,83>>, 9, 0, 0, 0, 0>>,  \* TPS
    <<<<74,65,86,65,68>>, 9, -75, 0, 0, -405>>,  \* JAVAD
    <<<<78,65,86,67,79,77>>, 9, 20, 0, 0, 105>>,  \* NAVCOM
    <<<<72,69,77,73>>, 9, -10, 0, 0, 170>>  \* HEMI
  >>
(* the strings of a 1033: fields from p on *)
RECURSIVE StringAt(_, _, _)
StringAt(f, p, k) ==
  LET n == ToInt(f[p]) IN
  IF k = 0 THEN [i \in 1..n |-> ToInt(f[p + i])] ELSE StringAt(f, p + n + 1, k - 1)
RcvDescriptor(f) == UpToNul(StringAt(f, 2 + 1 + ToInt(f[2]) + 1, 1))
Biases1033(f) ==
  LET d == RcvDescriptor(f)
      hit == {i \in 1..Len(Receivers) : HasText(d, Receivers[i][1])}
      i0 == CHOOSE i \in hit : \A j \in hit : i <= j
  IN Msg("GloBiases", Sender(ToInt(f[1])),
         IF hit = {} THEN <<XI(0), XI(0), XI(0), XI(0), XI(0)>> ELSE [k \in 1..5 |-> XI(Receivers[i0][k + 1])])
Biases1230(f) ==
  Msg("GloBiases", Sender(ToInt(f[1])), <<X(f[3])>> \o [k \in 1..4 |-> IF f[2] = ZeroL THEN X(f[3 + k]) ELSE XI(0)])
(* a text of at most 254 bytes, not ending within a character *)
CharLen(c) == IF c < 128 THEN 1 ELSE IF c < 192 THEN 0 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4
WholeChars(s, n) ==
  IF Len(s) <= n THEN s
  ELSE LET lead == {i \in (n - 2)..n : CharLen(s[i]) >= 2 /\ i + CharLen(s[i]) - 1 > n} IN
       SubSeq(s, 1, IF lead = {} THEN n ELSE (CHOOSE i \in lead : TRUE) - 1)
Text1029(f) ==
  LET s == [i \in 1..(Len(f) - 5) |-> ToInt(f[i + 5])] IN
  Text(6, ToInt(f[1]), UpToNul(WholeChars(LogHead \o s, 254)))
(* a message of SBP carried in RTCM: the contents are followed for one kind, GPS time *)
Swift(f) ==
  LET d == [i \in 1..16 |-> IF i <= ToInt(f[3]) THEN ToInt(f[3 + i]) ELSE 0]
      w(o) == AddL(L(LE16(d, o)), ShlL(L(LE16(d, o + 2)), 16))
      ns == w(8)
  IN IF f[1] # L(258) THEN Msg("*", f[2], <<>>) ELSE Msg("GpsTime", f[2], <<XI(LE16(d, 0)), X(w(4)), X(IF ns[2] >= 32768 THEN <<ns[1], ns[2], 65535, 65535>> ELSE ns), XI(d[13])>>)

---------------------------------------------------------------------------
(* raw navigation frames: SBAS only; <<ok, messages>> *)
FrameByte(b, p, n, j) == FoldLeft(LAMBDA a, i : 2 * a + (IF 8 * j + i < n THEN BitBE(b, p + 8 * j + i) ELSE 0), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
SbasFrame(b, p, n, stn) ==
  LET sat == 120 + GetU(b, p + 4, 6)
      d == [j \in 1..32 |-> FrameByte(b, p + 62, n, j - 1)]
      covered == [j \in 1..29 |-> IF j = 1 THEN GetU(d, 0, 2) ELSE GetU(d, 8 * (j - 1) - 6, 8)]
  IN IF sat > 158 \/ n \notin {256, 288} \/ d[1] \notin {83, 154, 198} \/ Crc24(covered) # GetU(d, 226, 24) THEN <<>>
     ELSE <<Msg("SbasRaw", Sender(stn), <<XI(sat), XI(2), X(GetUL(b, p + 19, 30)), XI(GetU(d, 8, 6))>> \o
                 [i \in 1..27 |-> XI(IF i = 27 THEN 16 * GetU(d, 222, 4) ELSE GetU(d, 14 + 8 * (i - 1), 8))])>>
NdfSbas == 3
RECURSIVE Frames4075(_, _, _, _)
Frames4075(b, p, k, stn) ==
  IF k = 0 THEN <<TRUE, <<>>>>
  ELSE IF p + 62 > NBits(b) THEN <<FALSE, <<>>>>
  ELSE LET n == GetU(b, p + 50, 12) IN
    IF p + 62 + n > NBits(b) THEN <<FALSE, <<>>>>
    ELSE LET r == Frames4075(b, p + 62 + n, k - 1, stn) IN
      <<r[1], IF r[1] /\ GetU(b, p, 4) = NdfSbas THEN SbasFrame(b, p, n, stn) \o r[2] ELSE r[2]>>

Raw(b) ==
  IF NBits(b) < 32 \/ GetU(b, 24, 2) # 0 THEN <<>>
  ELSE LET r == Frames4075(b, 32, GetU(b, 26, 6), GetU(b, 12, 12)) IN IF r[1] THEN r[2] ELSE <<>>

---------------------------------------------------------------------------
(* state space corrections.  f: 12 header fields, then the satellites *)
SigCode(sys) == <<0, 2, 3, 12, 31, 14>>[sys + 1]
SsrTime(st, f) ==
  LET sys == ToInt(f[3]) e == ToInt(f[2]) IN
  IF sys = 2 THEN IF e < 86401 THEN FromGlo(1000 * e, st.leap, st.ref) ELSE NoTime
  ELSE IF e >= 604800 THEN NoTime
  ELSE InNearestWeek(IF sys = 3 THEN FromBds(1000 * e) ELSE 1000 * e, st.ref)
SsrHead(t, f, sat) == <<XI(t[1]), XI(t[2] \div 1000), X(sat), XI(SigCode(ToInt(f[3]))), X(f[4]), X(f[7])>>
(* orbit o: sat, iode, crc, radial, along, cross, three rates; clock c: sat, three terms *)
OrbitClock(t, f, o, c) ==
  Msg("SsrOrbitClock", L(0), SsrHead(t, f, o[1]) \o <<X(o[2])>> \o [i \in 1..6 |-> X(o[3 + i])] \o [i \in 1..3 |-> X(c[1 + i])])
Orbits(f) == [i \in 1..ToInt(f[12]) |-> SubSeq(f, 13 + 9 * (i - 1), 12 + 9 * i)]
Clocks(f) == [i \in 1..ToInt(f[12]) |-> SubSeq(f, 13 + 4 * (i - 1), 12 + 4 * i)]
(* every clock correction whose satellite has an orbit correction, in the order of the clock message *)
Paired(st, fo, fc) ==
  LET t == SsrTime(st, fo) os == Orbits(fo) cs == Clocks(fc) IN
  IF t = NoTime THEN <<>>
  ELSE FlattenSeq([i \in 1..Len(cs) |->
         LET hit == {j \in 1..Len(os) : os[j][1] = cs[i][1]} IN
         IF hit = {} THEN <<>> ELSE <<OrbitClock(t, fo, os[CHOOSE j \in hit : \A k \in hit : j <= k], cs[i])>>])
SsrOrbit(st, f, kind) ==
  LET sys == ToInt(f[3]) have == st.ssr[sys] other == IF kind = "orbit" THEN "clock" ELSE "orbit" IN
  IF have # <<>> /\ have[1] = other /\ have[2][2] = f[2] /\ have[2][7] = f[7]
  THEN EmitAll([st EXCEPT !.ssr[sys] = <<>>], IF kind = "orbit" THEN Paired(st, f, have[2]) ELSE Paired(st, have[2], f))
  ELSE [st EXCEPT !.ssr[sys] = <<kind, f>>]
SsrBoth(st, f) ==
  LET t == SsrTime(st, f) IN
  IF t = NoTime THEN st
  ELSE EmitAll(st, [i \in 1..ToInt(f[12]) |-> LET p == 13 + 13 * (i - 1) IN OrbitClock(t, f, SubSeq(f, p, p + 8), SubSeq(f, p + 9, p + 12))])
RECURSIVE CodeBiasMsgs(_, _, _)
CodeBiasMsgs(t, f, p) ==
  IF p > Len(f) THEN <<>>
  ELSE LET m == ToInt(f[p + 1]) IN
    <<Msg("SsrCodeBiases", L(0), SsrHead(t, f, f[p]) \o <<XI(m)>> \o [i \in 1..(2 * m) |-> X(f[p + 1 + i])])>>
    \o CodeBiasMsgs(t, f, p + 2 + 2 * m)
PhasePer == 30
RECURSIVE PhaseBiasMsgs(_, _, _)
PhaseBiasMsgs(t, f, p) ==
  IF p > Len(f) THEN <<>>
  ELSE LET m == ToInt(f[p + 1])
           n == IF m = 0 THEN 1 ELSE (m + PhasePer - 1) \div PhasePer
           part(k) == SubSeq(f, p + 4 + 5 * PhasePer * (k - 1), p + 3 + 5 * (IF k * PhasePer < m THEN k * PhasePer ELSE m))
       IN [k \in 1..n |-> Msg("SsrPhaseBiases", L(0), SsrHead(t, f, f[p]) \o
                              <<X(f[10]), X(f[11]), X(f[p + 2]), X(f[p + 3]), XI(Len(part(k)) \div 5)>>
                              \o [i \in 1..Len(part(k)) |-> X(part(k)[i])])]
          \o PhaseBiasMsgs(t, f, p + 4 + 5 * m)
Ssr(st, f, kind) ==
  LET t == SsrTime(st, f) IN
  CASE kind \in {"orbit", "clock"} -> SsrOrbit(st, f, kind)
    [] kind = "both" -> SsrBoth(st, f)
    [] OTHER -> IF t = NoTime THEN st ELSE EmitAll(st, IF kind = "code" THEN CodeBiasMsgs(t, f, 13) ELSE PhaseBiasMsgs(t, f, 13))

---------------------------------------------------------------------------
(* ephemerides: those of healthy GPS satellites set the time *)
Ephemeris(st, t, f) ==
  LET e == EphOf(t, f, st.ref, st.leap) IN
  IF ~e.ok THEN st
  ELSE LET s1 == Emit(st, e.m)
           sat == ToInt(f[1]) ch == ToInt(f[6])
           s2 == IF t = 1020 /\ sat \in 1..28 THEN [s1 EXCEPT !.fcn[sat] = IF ch \in 0..13 THEN ch ELSE 255] ELSE s1
       IN IF t = 1019 /\ f[7] = ZeroL /\ st.cfg.obs = 0 /\ e.toe[1] >= 1876 /\ (st.truth = NoTime \/ Later(e.toe, st.truth))
          THEN [s2 EXCEPT !.truth = e.toe] ELSE s2

(* messages that do not need to know the time *)
Timeless(t) == t \in {1005, 1006, 1019, 1029, 1042, 1045, 1046, 4062, 4075} \/ (MsmType(t) \in 1..3)
Converted(t) ==
  t \in {1002, 1004, 1005, 1006, 1010, 1012, 1029, 1033, 1230, 4062} \/ t \in EphTypes \/ t \in SsrTypes
  \/ (MsmType(t) \in 4..7 /\ MsmCons(t) \notin {"SBAS", "QZS"})
Dispatch(st, b, t) ==
  IF t = 4075 THEN EmitAll(st, Raw(b))
  ELSE IF MsmType(t) \in 1..3
  THEN IF "msm" \in st.warned THEN st
       ELSE IF NBits(b) < 24 THEN [st EXCEPT !.warned = @ \cup {"msm"}] ELSE WarnOnce(st, "msm", 4, GetU(b, 12, 12), NoMsm123)
  ELSE IF ~Converted(t) THEN st
  ELSE LET r == Decode(b, t) f == r.f IN
    IF ~r.ok THEN st
    ELSE CASE t \in {1002, 1004, 1010, 1012} -> Legacy(st, t, f)
           [] t \in {1005, 1006} -> Emit(st, Msg("BasePosEcef", Sender(ToInt(f[1])), <<X(f[7]), X(f[9]), X(f[11])>>))
           [] t \in EphTypes -> Ephemeris(st, t, f)
           [] t = 1029 -> Emit(st, Text1029(f))
           [] t = 1033 -> IF st.bias = NoTime \/ LtL(L(120000), DiffMs(st.ref, st.bias)) THEN Emit(st, Biases1033(f)) ELSE st
           [] t = 1230 -> [Emit(st, Biases1230(f)) EXCEPT !.bias = st.ref]
           [] t = 4062 -> Emit(st, Swift(f))
           [] t \in SsrTypes -> Ssr(st, f, SsrKind(t))
           [] OTHER -> Msm(st, b, t, f)
(* the last MSM of an epoch says so, whether or not it was understood *)
EndsEpoch(b, t) == t \in 1070..1229 /\ NBits(b) >= 54 /\ GetU(b, 54, 1) = 0
Handle(st0, b) ==
  LET st == [st0 EXCEPT !.outs = <<>>, !.ref = IF st0.cfg.obs = 1 THEN @ ELSE st0.truth]
      t == MsgNum(b)
      known == st.ref # NoTime
      s1 == IF known THEN [st EXCEPT !.leap = LeapAt(st.ref)] ELSE st
  IN IF Len(b) < 2 \/ (~known /\ ~Timeless(t)) THEN st
     ELSE LET s2 == Dispatch(s1, b, t) IN IF EndsEpoch(b, t) THEN Flush(s2) ELSE s2
=============================================================================
