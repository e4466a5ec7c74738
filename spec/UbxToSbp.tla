------------------------------ MODULE UbxToSbp ------------------------------
(***************************************************************************)
(* The UBX to SBP converter: its state, and for every UBX message the SBP  *)
(* messages it gives.  Numbers that arise from floating point arithmetic   *)
(* are described with the tolerance of their last place.                   *)
(***************************************************************************)
EXTENDS UbxCodec, Floats, Match, UbxNav

Unset == <<>>
WeekMs == 604800000
WeekMsL == L(WeekMs)
(* t modulo one week, and the number of weeks; t >= 0 in milliseconds *)
WeekOfMs(t) == DivK(DivK(t, 30000), 20160)
TowOfMs(t) == SubL(t, MulAll(WeekOfMs(t), <<30000, 20160>>))

(* ------------------------------ observations --------------------------- *)
CodeOf(gnss, sig) ==
  CASE gnss = 0 /\ sig = 0 -> 0 [] gnss = 0 /\ sig = 3 -> 7 [] gnss = 0 /\ sig = 4 -> 1
    [] gnss = 1 /\ sig = 0 -> 2
    [] gnss = 2 /\ sig = 0 -> 15 [] gnss = 2 /\ sig = 1 -> 14 [] gnss = 2 /\ sig = 5 -> 20 [] gnss = 2 /\ sig = 6 -> 21
    [] gnss = 3 /\ sig \in {0, 1} -> 12 [] gnss = 3 /\ sig \in {2, 3} -> 13
    [] gnss = 5 /\ sig = 0 -> 31 [] gnss = 5 /\ sig = 4 -> 35 [] gnss = 5 /\ sig = 5 -> 36
    [] gnss = 6 /\ sig = 0 -> 3 [] gnss = 6 /\ sig = 2 -> 4
    [] OTHER -> 255
LockBucket(ms) == IF ms < 32 THEN 0 ELSE IF ms >= 524288 THEN 15
                  ELSE CHOOSE i \in 1..14 : ms < Pow2(i + 5) /\ (i = 1 \/ ms >= Pow2(i + 4))
P51 == <<0, 0, 0, 8>>
Pow2L(n) == ShlL(L(1), n)
(* expected value and whether SBP can represent it *)
PseudorangeOf(x) ==
  LET q == F64Scaled(x, 20) v == MulK(q.v, 50) ok == q.ok /\ ~NegativeL(q.v) /\ LtU(q.v, Pow2L(52)) /\ LtU(v, Pow2L(52)) IN
  [ok |-> ok, d |-> IF ok THEN Near(<<16384, 64>>, SubL(v, L(524288)), 524288 + 60) ELSE XI(0)]
PhaseOf(q, bits) ==
  LET top == Pow2L(20 + bits)
      ok == q.ok /\ LtL(q.v, SubL(top, L(2048))) /\ LeL(Neg(top), q.v) IN
  [ok |-> ok, d |-> IF ok THEN Near(<<4096>>, q.v, 2050) ELSE XI(0)]
Cn0Of(c) == IF c > 63 THEN 255 ELSE 4 * c
BitAt(v, i) == (v \div Pow2(i)) % 2
ObsOf(g) == \* g: the measurement's fourteen fields
  LET p == PseudorangeOf(g[1])
      ph == PhaseOf(F64Scaled(g[2], 20), 31)
      dp == PhaseOf(F32Scaled(g[3], 20), 15)
      trk == g[13][1]
      flags == (IF p.ok THEN BitAt(trk, 0) ELSE 0) + (IF ph.ok THEN 2 * BitAt(trk, 1) + 4 * BitAt(trk, 2) ELSE 0)
               + (IF dp.ok THEN 8 ELSE 0)
      ms == g[8][1]
  IN <<p.d, ph.d, dp.d, XI(Cn0Of(g[9][1])),
       OneOf({L(LockBucket(ms)), L(LockBucket(IF ms = 0 THEN 0 ELSE ms - 1))}),
       XI(flags), X(g[5]), XI(CodeOf(g[4][1], g[6][1]))>>
(* receiver time in ns, to within two *)
RxNs(tow) ==
  LET s == F64Scaled(tow, 0).v
      f == SubL(F64Scaled(tow, 32).v, ShlL(s, 32))         \* 32 bits of fraction
  IN AddL(MulAll(s, <<31250, 32000>>), ShrL(MulAll(f, <<31250, 32000>>), 32))
WeekNs == MulAll(WeekMsL, <<31250, 32>>)
MaxObsMessages == 15
ObsPerMessage == 14
RawxMessages(s, f) ==
  LET total == f[7][1]
      n == Min2(total, ObsPerMessage * MaxObsMessages)
      msgs == IF n = 0 THEN 1 ELSE 1 + ((n - 1) \div ObsPerMessage)
      wn == f[5][1]
      t == RxNs(f[4])
      over == wn # 0 /\ LtL(SubL(WeekNs, L(500000)), t)
      meas(i) == SubSeq(f, 12 + 14 * (i - 1), 25 + 14 * (i - 1))
      hdr(k, cnt) == <<XI(IF wn = 0 THEN 65535 ELSE IF over THEN wn + 1 ELSE wn),
                       Near(<<>>, IF over THEN SubL(t, WeekNs) ELSE t, 2), Between(L(-500000), L(500000)),
                       XI(16 * msgs + k - 1), XI(cnt)>>
      one(k) == LET cnt == Min2(ObsPerMessage, n - ObsPerMessage * (k - 1)) IN
                Msg("Obs", s, hdr(k, cnt) \o FlattenSeq([i \in 1..cnt |-> ObsOf(meas(ObsPerMessage * (k - 1) + i))]))
  IN [k \in 1..msgs |-> one(k)]

(* ------------------------------ navigation ----------------------------- *)
Clamp16(v) == IF LtU(L(65535), v) THEN L(65535) ELSE v
FloatTol(v) == AddL(L(1), <<v[2] \div 64, 0, 0, 0>>)
Acc5(v) == NearT(<<>>, v, FloatTol(v))
Deg(v) == Near(<<>>, MulK(v, 1000), 1)
FixFlags(fix, flags) ==
  LET ins == IF fix \in {1, 4} THEN 8 ELSE 0
      mode == CASE fix = 1 -> 5
                [] fix \in {2, 3, 4} ->
                     IF BitAt(flags, 1) = 0 THEN 1
                     ELSE CASE flags \div 64 = 0 -> 2 [] flags \div 64 = 1 -> 3 [] flags \div 64 = 2 -> 4 [] OTHER -> 0
                [] OTHER -> 0
  IN mode + ins
PosLlh(s, f, o, tow, sats, flags) == \* o: position of longitude in f, acc: of the accuracies
  Msg("PosLlh", s, <<X(tow), Deg(f[o + 1]), Deg(f[o]), Deg(f[o + 2]), X(Clamp16(f[o + 4])), X(Clamp16(f[o + 5])), XI(sats), XI(flags)>>)
OrientOf(st, f) ==
  <<X(f[4]), X(MulK(f[9], 10)), X(MulK(f[10], 10)), X(MulK(f[11], 10)), Acc5(f[12]), Acc5(f[13]), Acc5(f[14]),
    XI(IF st.fix \in {1, 4} THEN 1 ELSE 0)>>
NavPvt(st, s, f) ==
  LET fl == FixFlags(f[14][1], f[15][1]) IN
  [st |-> [st EXCEPT !.sats = f[17][1], !.flags = fl, !.fix = f[14][1], !.tow = f[4]],
   outs |-> IF st.hnr THEN <<>> ELSE <<PosLlh(s, f, 18, f[4], f[17][1], fl)>>]
HnrPvt(st, s, f) ==
  LET o == st.orient
      orient == <<X(f[4]), o[2], o[3], X(MulK(f[24], 10)), o[5], o[6], Acc5(f[28]), o[8]>>
      pos == Msg("PosLlh", s, <<X(f[4]), Deg(f[18]), Deg(f[17]), Deg(f[19]), X(Clamp16(f[25])), X(Clamp16(f[26])),
                                XI(st.sats), XI(st.flags)>>)
  IN [st |-> [st EXCEPT !.tow = f[4]],
      outs |-> IF st.hnr THEN <<pos, Msg("OrientEuler", s, orient)>> ELSE <<>>]
NavAtt(st, s, f) ==
  LET o == OrientOf(st, f) IN
  [st |-> [st EXCEPT !.orient = o], outs |-> IF st.hnr THEN <<>> ELSE <<Msg("OrientEuler", s, o)>>]
NavVel(st, s, f) ==
  [st |-> st,
   outs |-> <<Msg("VelEcef", s, <<X(f[4]), X(MulK(f[5], 10)), X(MulK(f[6], 10)), X(MulK(f[7], 10)),
                                  Known("velecef-accuracy", Clamp16(MulK(f[8], 10)), L(f[8][1])),
                                  XI(st.sats), XI(8 + (IF st.fix > 0 THEN 5 ELSE 0))>>)>>]
(* az/el every 63 satellites, signal state every 85, in the order they fill up *)
NavSat(st, s, f) ==
  LET n == (Len(f) - 7) \div 7
      sat(i) == SubSeq(f, 8 + 7 * (i - 1), 14 + 7 * (i - 1))
      azel(a, b) == Msg("SvAzEl", s, <<XI(b - a + 1)>> \o FlattenSeq([i \in 1..(b - a + 1) |->
         LET g == sat(a + i - 1) IN <<X(g[2]), XI(CodeOf(g[1][1], 0)), XI(((ToInt(g[5]) + 1) \div 2) % 256), X(g[4])>>]))
      states(a, b) == Msg("MeasurementState", s, <<XI(b - a + 1)>> \o FlattenSeq([i \in 1..(b - a + 1) |->
         LET g == sat(a + i - 1) IN <<X(g[2]), XI(CodeOf(g[1][1], 0)), XI(Cn0Of(g[3][1]))>>]))
      full(i) == (IF i % 63 = 0 THEN <<azel(i - 62, i)>> ELSE <<>>) \o (IF i % 85 = 0 THEN <<states(i - 84, i)>> ELSE <<>>)
  IN [st |-> st,
      outs |-> FlattenSeq([i \in 1..n |-> full(i)]) \o
               (IF n % 63 # 0 THEN <<azel(n - (n % 63) + 1, n)>> ELSE <<>>) \o
               (IF n % 85 # 0 THEN <<states(n - (n % 85) + 1, n)>> ELSE <<>>)]
(* the time (week, ms) with this time of week that is nearest to a reference *)
NearestWeek(tow, ref) ==
  LET d == SubL(tow, TowOfMs(ref)) half == L(WeekMs \div 2) w == WeekOfMs(ref) IN
  IF LtL(half, d) THEN SubL(w, L(1)) ELSE IF LtL(d, Neg(half)) THEN AddL(w, L(1)) ELSE w
NavStatus(st, s, f) ==
  LET fix == f[5][1] fl == f[6][1]
      fixGood == fix \in {3, 4} /\ BitAt(fl, 0) = 1
      timeGood == BitAt(fl, 3) = 1 /\ BitAt(fl, 2) = 1
      st1 == [st EXCEPT !.weekSet = @ \/ timeGood]
      gtow == TowOfMs(f[4])
      gwk == NearestWeek(gtow, st.obsT)
      local == IF st.run = Unset THEN f[10] ELSE AddL(st.run, SubL(f[10], st.lastImu))
      \* the difference of the 32 bit counters is a signed 32 bit number
      dif == LET d == SubL(f[10], st.lastImu) IN <<d[1], d[2], IF d[2] >= 32768 THEN 65535 ELSE 0, IF d[2] >= 32768 THEN 65535 ELSE 0>>
      loc == IF st.run = Unset THEN f[10] ELSE AddL(st.run, dif)
      ltow == TowOfMs(loc)
      lwk == NearestWeek(ltow, DivK(st.imuT, 16000))
  IN IF fixGood /\ timeGood /\ st.obsT # Unset /\ st.imuT # Unset
     THEN [st |-> [st1 EXCEPT !.tow = f[4]],
           outs |-> <<Msg("GnssTimeOffset", s, <<X(SubL(gwk, lwk)), X(SubL(gtow, ltow)), XI(0), XI(0)>>)>>]
     ELSE [st |-> st1, outs |-> <<>>]
Rawx(st, s, f) ==
  LET known == f[8][1] % 2 = 1
      t == AddL(MulAll(f[5], <<30000, 20160>>), DivK(DivK(MulK(F64Scaled(f[4], 28).v, 1000), 16384), 16384))
  IN [st |-> [st EXCEPT !.obsT = IF f[7][1] # 0 /\ f[5][1] # 0 /\ st.weekSet THEN t ELSE @,
                        !.leapKnown = known, !.leap = IF known THEN f[6] ELSE @],
      outs |-> RawxMessages(s, f)]

(* ---------------------------- external sensors ------------------------- *)
Gap == L(1000)
U32(v) == <<v[1], v[2], 0, 0>>
S24(v) == IF v[2] % 256 >= 128 THEN <<v[1], (v[2] % 256) + 65280, 65535, 65535>> ELSE <<v[1], v[2] % 256, 0, 0>>
WheelSource(t) == CASE t = 8 -> 1 [] t = 9 -> 0 [] t = 6 -> 2 [] t = 7 -> 3 [] t = 10 -> 0
S32(v) == IF v[2] >= 32768 THEN <<v[1], v[2], 65535, 65535>> ELSE <<v[1], v[2], 0, 0>>
Tick22(v) == <<v[1], v[2] % 64, 0, 0>>
EsfMeasItem(acc, w, calib, s) == \* acc: st, outs, stop
  LET type == (w[2] \div 256) % 64 IN
  IF acc.stop \/ type \notin 6..11 THEN acc
  ELSE LET st == acc.st IN
       IF st.orun # Unset /\ LtU(Gap, U32(SubL(calib, st.lastOdo)))
       THEN [acc EXCEPT !.st.orun = Unset, !.stop = TRUE]
       ELSE LET run == IF st.orun = Unset THEN calib ELSE AddL(st.orun, U32(SubL(calib, st.lastOdo)))
                st1 == [st EXCEPT !.orun = run, !.lastOdo = calib]
                tow == TowOfMs(run)
                dir == BitAt(w[2], 7)
            IN IF type = 11
               THEN [acc EXCEPT !.st = st1,
                       !.outs = Append(@, Msg("Odometry", s, <<Between(SubL(tow, L(1)), tow), X(S24(w)), XI(2 + 32 * dir + 24)>>))]
               ELSE LET src == WheelSource(type)
                        tick == Tick22(w)
                        old == st1.ticks[src]
                        inc == Tick22(SubL(tick, old.in))
                        out == IF old = Unset THEN tick
                               ELSE S32(IF dir = 1 THEN SubL(old.out, inc) ELSE AddL(old.out, inc))
                        us == MulK(tow, 1000)
                    IN [acc EXCEPT !.st = [st1 EXCEPT !.ticks[src] = [in |-> tick, out |-> out]],
                          !.outs = Append(@, Msg("Wheeltick", s, <<Between(SubL(us, L(1)), us), XI(2), XI(src), X(out)>>))]
EsfMeas(st, s, f) ==
  IF BitAt(f[5][1], 3) = 0 THEN [st |-> st, outs |-> <<>>]
  ELSE LET n == f[5][1] \div 2048
           r == FoldLeft(LAMBDA a, w : EsfMeasItem(a, w, f[Len(f)], s), [st |-> st, outs |-> <<>>, stop |-> FALSE],
                         SubSeq(f, 7, 6 + n))
       IN [st |-> r.st, outs |-> r.outs]

GyroTypes == {5, 13, 14}  AccTypes == {16, 17, 18}
ImuTypes == GyroTypes \cup AccTypes
Top16 == L(32767)  Bot16 == L(-32768)
(* out = v / k clamped to 16 bits, |out * k - v| <= tol, k = the product of ms *)
Clamped(v, ms, tol) ==
  IF LeL(MulAll(Top16, ms), v) THEN X(Top16)
  ELSE IF LeL(v, MulAll(Bot16, ms)) THEN X(Bot16) ELSE Near(ms, v, tol)
Gyro(v) == Clamped(MulK(v, 8), <<125>>, 66)
Accel(v) == Clamped(MulAll(v, <<32000, 10>>), <<14, 28019>>, 196133 + 5000)
Temperature(st) ==
  IF st.temp = Unset THEN XI(-32768)
  ELSE IF LeL(L(8700), st.temp) THEN XI(32767)
  ELSE IF LeL(st.temp, L(-4100)) THEN XI(-32767)
  ELSE Near(<<100>>, MulK(SubL(st.temp, L(2300)), 512), 101)
ImuAux(st, s) == Msg("ImuAux", s, <<XI(0), Temperature(st), XI(65)>>)
Diff24(a, b) == LET d == SubL(a, b) IN <<d[1], d[2] % 256, 0, 0>>
(* sixteenths of a microsecond: 39.0625 us are 625 *)
ImuTime(run, tag, tag0) == SubL(AddL(MulK(run, 16000), MulK(Diff24(tag, tag0), 625)), L(800000))
Week16 == <<30000, 20160, 16000>>
Tow16(t) == SubL(t, MulAll(DivK(DivK(DivK(t, 30000), 20160), 16000), Week16))
ImuRaw(t, ax, s) ==
  LET v == MulK(Tow16(t), 2) IN
  Msg("ImuRaw", s, <<XI(1), NearT(<<125>>, SubL(v, L(62)), L(73)), ax[16], ax[17], ax[18], ax[14], ax[13], ax[5]>>)
EsfRawItem(acc, w, tag, f, s) ==
  LET type == w[2] \div 256
      v == S24(w)
      acc0 == IF type = 12 /\ ~acc.stop THEN [acc EXCEPT !.st.temp = v] ELSE acc
  IN IF acc0.stop \/ type \notin ImuTypes THEN acc0
     ELSE LET st == acc0.st IN
          IF st.run # Unset /\ LtU(Gap, U32(SubL(f[4], st.lastImu)))
          THEN [acc0 EXCEPT !.st.run = Unset, !.stop = TRUE]
          ELSE LET run == IF st.run = Unset THEN f[4] ELSE AddL(st.run, U32(SubL(f[4], st.lastImu)))
                   t == ImuTime(run, tag, f[6])
                   st1 == [st EXCEPT !.run = run, !.lastImu = f[4], !.imuT = t]
                   again == type \in acc0.got
                   ax == [acc0.ax EXCEPT ![type] = IF type \in GyroTypes THEN Gyro(v) ELSE Accel(v)]
                   got == acc0.got \cup {type}
               IN IF again THEN [acc0 EXCEPT !.st = st1, !.stop = TRUE]
                  ELSE IF got # ImuTypes THEN [acc0 EXCEPT !.st = st1, !.ax = ax, !.got = got]
                  ELSE [acc0 EXCEPT !.st = [st1 EXCEPT !.sent = IF @ % 20 = 0 THEN 1 ELSE @ + 1],
                          !.ax = ax, !.got = {},
                          !.outs = @ \o (IF st1.sent % 20 = 0 THEN <<ImuAux(st1, s)>> ELSE <<>>) \o <<ImuRaw(t, ax, s)>>]
EsfRaw(st, s, f) ==
  LET n == (Len(f) - 4) \div 2
      r == FoldLeft(LAMBDA a, i : EsfRawItem(a, f[5 + 2 * (i - 1)], f[6 + 2 * (i - 1)], f, s),
                    [st |-> st, outs |-> <<>>, stop |-> FALSE, got |-> {}, ax |-> [i \in ImuTypes |-> XI(0)]],
                    [i \in 1..n |-> i])
  IN [st |-> r.st, outs |-> r.outs]

(* ------------------------------- everything ---------------------------- *)
MON_HW == 2569
FwdMax == 253
MonHw(st, s, b) ==
  [st |-> st, outs |-> IF Len(b) > FwdMax THEN <<>>
                       ELSE <<Msg("Fwd", s, <<XI(0), XI(1), XI(Len(b))>> \o [i \in 1..Len(b) |-> XI(b[i])])>>]
Sfrbx(st, s, f) ==
  LET n == f[8][1] ws == SubSeq(f, 12, 11 + n) sat == f[5][1] IN
  CASE f[4][1] = 0 -> GpsSubframe(st, s, sat, ws)
    [] f[4][1] = 3 -> BdsSubframe(st, s, sat, ws)
    [] f[4][1] = 2 -> GalPage(st, s, sat, ws)
    [] f[4][1] = 6 -> GloString(st, s, sat, f[7][1], ws)
    [] f[4][1] = 1 -> SbasMessage(st, s, sat, ws)
    [] OTHER -> [st |-> st, outs |-> <<>>]
Handled == {HNR_PVT, RXM_RAWX, RXM_SFRBX, NAV_ATT, NAV_PVT, NAV_VELECEF, NAV_SAT, NAV_STATUS, ESF_MEAS, ESF_RAW}
(* b: class, identifier, length, payload *)
Handle(st, s, b) ==
  LET t == TypeOf(b) IN
  IF t = MON_HW THEN MonHw(st, s, b)
  ELSE IF t \notin Handled THEN [st |-> st, outs |-> <<>>]
  ELSE LET d == UbxDecode(b, t) IN
       IF d.rc # Ok THEN [st |-> st, outs |-> <<>>]
       ELSE CASE t = HNR_PVT -> HnrPvt(st, s, d.f)
              [] t = RXM_RAWX -> Rawx(st, s, d.f)
              [] t = RXM_SFRBX -> Sfrbx(st, s, d.f)
              [] t = NAV_ATT -> NavAtt(st, s, d.f)
              [] t = NAV_PVT -> NavPvt(st, s, d.f)
              [] t = NAV_VELECEF -> NavVel(st, s, d.f)
              [] t = NAV_SAT -> NavSat(st, s, d.f)
              [] t = NAV_STATUS -> NavStatus(st, s, d.f)
              [] t = ESF_MEAS -> EsfMeas(st, s, d.f)
              [] t = ESF_RAW -> EsfRaw(st, s, d.f)

UbxInitial(hnr, fails) ==
  [hnr |-> hnr, sats |-> 0, flags |-> 0, fix |-> 0, tow |-> Unset,
   orient |-> [i \in 1..8 |-> XI(0)],
   weekSet |-> FALSE, obsT |-> Unset, imuT |-> Unset, run |-> Unset, lastImu |-> ZeroL,
   orun |-> Unset, lastOdo |-> ZeroL, ticks |-> [i \in 0..3 |-> Unset],
   sent |-> 0, temp |-> Unset, leapKnown |-> FALSE, leap |-> ZeroL,
   eph |-> <<>>, decoded |-> 0, fails |-> fails]
=============================================================================
