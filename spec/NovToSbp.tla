------------------------------ MODULE NovToSbp ------------------------------
(***************************************************************************)
(* The NovAtel to SBP converter: what each log of a receiver becomes.      *)
(* The state is what the converter remembers between logs: the last time   *)
(* it sent, the last position's kind of fix, when the last inertial sample *)
(* and the last description of the inertial unit were.                     *)
(* A time is <<week, ms of the week>>, <<0, 0>> where there is none yet.   *)
(***************************************************************************)
EXTENDS NovMessages, Match, Sine
NovSender == L(5000)
WeekMs == 604800000
NoTime == <<0, 0>>
NovInitial == [time |-> NoTime, sent |-> FALSE, pos |-> [ms |-> -1, flags |-> 0], imu |-> NoTime, aux |-> NoTime]

(* values as four limbs *)
Wide(v) == CASE Len(v) = 1 -> <<v[1], 0, 0, 0>> [] Len(v) = 2 -> <<v[1], v[2], 0, 0>> [] OTHER -> v
Signed(v) == IF v[2] >= 32768 THEN <<v[1], v[2], 65535, 65535>> ELSE <<v[1], v[2], 0, 0>>
IntOf(v) == ToInt(Wide(v))
BitOf(v, k) == (v[(k \div 16) + 1] \div Pow2(k % 16)) % 2     \* bit k of a 32-bit word
Clamped(v, lo, hi) == IF LtL(v, lo) THEN lo ELSE IF LtL(hi, v) THEN hi ELSE v
ScaledOr(q, big, neg) == IF q.ok THEN q.v ELSE IF neg THEN Neg(big) ELSE big
D64(x, s) == ScaledOr(F64Scaled(x, s), <<0, 0, 0, 16384>>, F64Sign(x))
F32(x, s) == ScaledOr(F32Scaled(x, s), <<0, 0, 0, 16384>>, x[2] >= 32768)

SarL(v, n) == IF NegativeL(v) THEN Neg(ShrL(Neg(v), n)) ELSE ShrL(v, n)

(* the SBP messages: type and payload layout; l5 and d3 are a carrier phase and
   a Doppler, whole part and 256ths *)
SbpGpsTime == "GPS_TIME"   SbpPosLlh == "POS_LLH"   SbpVelNed == "VEL_NED"   SbpOrientEuler == "ORIENT_EULER"
SbpAngularRate == "ANGULAR_RATE"   SbpImuRaw == "IMU_RAW"   SbpImuAux == "IMU_AUX"   SbpObs == "OBS"   SbpEphGps == "EPHEMERIS_GPS"
KindOf(type) == CASE type = 258 -> SbpGpsTime [] type = 522 -> SbpPosLlh [] type = 526 -> SbpVelNed [] type = 545 -> SbpOrientEuler
  [] type = 546 -> SbpAngularRate [] type = 2304 -> SbpImuRaw [] type = 2305 -> SbpImuAux [] type = 74 -> SbpObs [] type = 138 -> SbpEphGps
  [] OTHER -> "some other message"
ObsCell == <<"u4", "l5", "d3", "u1", "u1", "u1", "u1", "u1">>
RECURSIVE Cells(_)
Cells(n) == IF n <= 0 THEN <<>> ELSE ObsCell \o Cells(n - 1)
SbpLayout(t, len) ==
  CASE t = SbpGpsTime -> <<"u2", "u4", "s4", "u1">>
    [] t = SbpPosLlh -> <<"u4", "f8", "f8", "f8", "u2", "u2", "u1", "u1">>
    [] t = SbpVelNed -> <<"u4", "s4", "s4", "s4", "u2", "u2", "u1", "u1">>
    [] t = SbpOrientEuler -> <<"u4", "s4", "s4", "s4", "f4", "f4", "f4", "u1">>
    [] t = SbpAngularRate -> <<"u4", "s4", "s4", "s4", "u1">>
    [] t = SbpImuRaw -> <<"u4", "u1", "s2", "s2", "s2", "s2", "s2", "s2">>
    [] t = SbpImuAux -> <<"u1", "s2", "u1">>
    [] t = SbpObs -> <<"u4", "s4", "u2", "u1">> \o Cells((len - 11) \div 17)
    [] t = SbpEphGps -> <<"u1", "u1", "u4", "u2", "f4", "u4", "u1", "u1">> \o [i \in 1..7 |-> "f4"] \o [i \in 1..9 |-> "f8"]
                        \o <<"f4", "f4", "f4", "u4", "u2", "u1", "u2">>
    [] OTHER -> <<>>
WireSize(t) == CASE t = "u1" -> 1 [] t \in {"u2", "s2"} -> 2 [] t = "d3" -> 3 [] t \in {"u4", "s4", "f4"} -> 4 [] t = "l5" -> 5 [] t = "f8" -> 8
RECURSIVE WireLen(_)
WireLen(ts) == IF ts = <<>> THEN 0 ELSE WireSize(Head(ts)) + WireLen(Tail(ts))
WireField(s, o, t) ==
  CASE t = "u1" -> L(Byte(s, o)) [] t = "u2" -> L(LE16(s, o)) [] t = "s2" -> L(SLE16(s, o))
    [] t \in {"u4", "f4"} -> Wide(LE32(s, o)) [] t = "s4" -> Signed(LE32(s, o)) [] t = "f8" -> LE64(s, o)
    [] t = "l5" -> AddL(MulK(Signed(LE32(s, o)), 256), L(Byte(s, o + 4)))
    [] t = "d3" -> AddL(MulK(L(SLE16(s, o)), 256), L(Byte(s, o + 2)))
RECURSIVE WireFields(_, _, _)
WireFields(s, o, ts) == IF ts = <<>> THEN <<>> ELSE <<WireField(s, o, Head(ts))>> \o WireFields(s, o + WireSize(Head(ts)), Tail(ts))

---------------------------------------------------------------------------
(* positions and velocities *)
(* how a position was found, as SBP says it: 1 single, 2 differential, 3 float,
   4 fixed, 6 with SBAS corrections; 8 added where inertial sensors took part *)
FixOf(v) == LET type == IF v[2] = 0 THEN v[1] ELSE -1 IN
  CASE type = 0 -> 0 [] type = 17 -> 2 [] type = 18 -> 6 [] type = 34 -> 3 [] type \in {48, 49, 50} -> 4
    [] type = 53 -> 9 [] type = 52 -> 14 [] type = 54 -> 10 [] type = 55 -> 11 [] type = 56 -> 12 [] OTHER -> 1
(* a standard deviation in metres, as millimetres that fit 16 bits *)
Accuracy(s) == LET x == F32(s, 20) top == MulInt(L(65535), 1048576) IN
  NearT(<<4096, 256>>, IF LtL(<<0, 0, 64, 0>>, x) THEN top ELSE Clamped(MulK(x, 1000), ZeroL, top), L(524288 + 8192))
WiderOf(a, b) == IF LtL(F32(a, 20), F32(b, 20)) THEN b ELSE a
(* above the ellipsoid; the geoid model's stand-in: half the latitude less a quarter of the longitude *)
Height(b) == LET D(i) == D64(b[i], 30) IN AddL(D(5), SarL(SubL(MulK(D(3), 2), D(4)), 2))
PosLlh(ms, b) == Msg(SbpPosLlh, NovSender,
  <<XI(ms), X(b[3]), X(b[4]), Real(30, Height(b), L(20000)),       \* the separation is a float: 2 cm / 1000
    Accuracy(WiderOf(b[8], b[9])), Accuracy(b[10]), X(Wide(b[18])), XI(FixOf(b[2]))>>)
(* metres per second (2^-14) times a sine, in 2^-14 mm/s *)
Part(h, t) == LET v == ShrL(MulK(MulInt(h, IF t < 0 THEN -t ELSE t), 1000), 24) IN IF t < 0 THEN Neg(v) ELSE v
Along(h, t, whole) == NearT(<<16384>>, Part(h, t), AddL(L(8192 + 1100), ShrL(MulK(h, 1000), IF whole THEN 24 ELSE 14)))
Down(x) == NearT(<<16384>>, Neg(MulS(D64(x, 14), 1000)), L(8192 + 1100))
VelNed(ms, b, flags) ==
  LET h == D64(b[5], 14) a == ToInt(D64(b[6], 14)) w == a % 16384 = 0 IN
  Msg(SbpVelNed, NovSender, <<XI(ms), Along(h, SinAt(a + 90 * 16384), w), Along(h, SinAt(a), w), Down(b[7]), XI(0), XI(0), XI(0), XI(flags)>>)
(* degrees, in millionths *)
Angle(x) == NearT(<<16384, 16384, 4>>, MulS(D64(x, 30), 1000000), L(536870912 + 2000000))
OrientEuler(ms, b) == Msg(SbpOrientEuler, NovSender,
  <<XI(ms), Angle(b[3]), Angle(b[4]), Angle(b[5]), X(ZeroL), X(ZeroL), X(ZeroL), XI(IF b[6] = <<3, 0>> THEN 1 ELSE 0)>>)

---------------------------------------------------------------------------
(* ephemerides *)
InRange(b) ==
  /\ b[1][2] = 0 /\ b[1][1] <= 255 /\ b[6][2] = 0
  /\ \A i \in {8, 25} : LET q == F64Scaled(b[i], 0) IN q.ok /\ ~F64Sign(b[i]) /\ q.v[3] = 0 /\ q.v[4] = 0
EphGps(b) ==
  LET W == X(<<b[6][1], 0, 0, 0>>) S(i) == Single(b[i]) D(i) == X(b[i]) IN
  Msg(SbpEphGps, NovSender,
    <<X(Wide(b[1])), XI(0), X(F64Scaled(b[8], 0).v), W, RootF(b[32]), XI(14400), XI(1), XI(b[3][1] % 256),
      S(26), S(17), S(16), S(14), S(15), S(18), S(19),
      D(10), D(11), D(12), Root(b[9]), D(22), D(23), D(13), D(20), D(21),
      S(27), S(28), S(29), X(F64Scaled(b[25], 0).v), W, XI(b[4][1] % 256), XI(b[24][1])>>)

---------------------------------------------------------------------------
(* observations *)
CodeOf(status) ==
  LET sys == status[2] % 8  sig == (status[2] \div 32) % 32 IN
  CASE sys = 0 /\ sig = 0 -> 0 [] sys = 0 /\ sig = 5 -> 6 [] sys = 1 /\ sig = 0 -> 3 [] sys = 1 /\ sig = 1 -> 4 [] OTHER -> -1
(* GLONASS satellites are numbered from 38 *)
SatOf(code, prn) == IF code \in {3, 4} THEN prn - 37 ELSE prn
SatOk(code, sat) == IF code \in {3, 4} THEN sat \in 1..28 ELSE sat \in 1..32
LockMs(v) == DivK(MulK(Wide(v), 125), 4)       \* from 1/32 s
LockCode(ms) == LET big == ms[3] > 0 \/ ms[2] > 16383 v == ToInt(ms) IN
  IF ~big /\ v < 32 THEN 0 ELSE IF ~big /\ v < 524288 THEN CHOOSE i \in 1..14 : v < Pow2(i + 5) /\ (i = 1 \/ v >= Pow2(i + 4)) ELSE 15
(* one record of a RANGECMP body: the list of an observation's fields, or nothing *)
Observation(r) ==
  LET status == r[1]
      code == CodeOf(status)  sat == SatOf(code, r[7][1])
      lock == BitOf(status, 12) = 1
      P == SarL(AddL(MulK(r[3], 25), L(32)), 6)
      D == Signed(r[2])
      flags == (IF lock THEN 9 ELSE 0) + (IF BitOf(status, 10) = 1 THEN 2 ELSE 0) + (IF BitOf(status, 28) = 1 THEN 4 ELSE 0)
  IN IF code < 0 \/ ~SatOk(code, sat) \/ P[3] > 0 \/ P[4] > 0 \/ ~LeL(L(-8388608), D) \/ ~LtL(D, L(8388608)) THEN <<>>
     ELSE << X(P), X(Neg(Signed(r[4]))), X(D), XI(IF lock THEN 4 * (r[9][1] + 20) ELSE 0), XI(LockCode(LockMs(r[8]))),
             XI(flags), XI(sat), XI(code) >>
PerMsg == 14
RECURSIVE ObsOfRecords(_, _, _)
ObsOfRecords(b, i, j) == IF i > j THEN <<>> ELSE Observation(SubSeq(b, 2 + 11 * (i - 1), 1 + 11 * i)) \o ObsOfRecords(b, i + 1, j)
ObsMsgs(wn, ms, b) ==
  LET n == b[1][1] total == IF n = 0 THEN 1 ELSE (n + PerMsg - 1) \div PerMsg IN
  [k \in 1..total |-> Msg(SbpObs, NovSender, <<XI(ms), XI(0), XI(wn), XI(16 * total + k - 1)>>
                            \o ObsOfRecords(b, PerMsg * (k - 1) + 1, IF PerMsg * k < n THEN PerMsg * k ELSE n))]

---------------------------------------------------------------------------
(* inertial samples.  A unit of each kind: samples per second, and the size of the
   gyroscopes' and accelerometers' steps as the receiver's manual lists them:
   n / (d1 * d2 ..) / 2^s rad, deg, m/s, ft/s or thousandths of g; per sample, or
   (rated = FALSE) per second *)
U(n, d, s, u) == [n |-> n, d |-> d, s |-> s, u |-> u, rated |-> TRUE]
PerSecond(x) == [x EXCEPT !.rated = FALSE]
None == [u |-> "none"]
HzOf(t) == CASE t \in {1, 4, 5, 11, 12, 20, 27, 28, 58} -> 100 [] t \in {32, 41, 56} -> 125 [] t \in {8, 13, 26, 31, 33, 61, 62} -> 200 [] OTHER -> 0
GyroOf(t) ==
  CASE t \in {5, 11, 12, 20, 27, 28, 58} -> U(1, <<>>, 33, "rad")
    [] t = 33 -> U(1, <<3600, 10>>, 8, "rad")
    [] t = 13 -> U(1, <<3600, 10>>, 8, "deg")          \* 0.1 / 2^8 seconds of arc
    [] t = 8 -> U(1, <<>>, 19, "rad")
    [] t = 26 -> U(1, <<1000, 1000, 1000>>, 0, "rad")
    [] t = 31 -> U(45, <<>>, 27, "deg")                \* 720 / 2^31
    [] t \in {32, 56} -> U(1, <<>>, 21, "deg")
    [] t \in {41, 62} -> PerSecond(U(1, <<125>>, 16, "deg"))
    [] t = 61 -> U(1, <<66, 200>>, 16, "deg")          \* 0.0151515
    [] OTHER -> None
AccelOf(t) ==
  CASE t \in {5, 11, 20, 27, 28} -> U(1, <<>>, 27, "ft")
    [] t = 12 -> U(1, <<>>, 26, "ft")
    [] t = 58 -> U(1, <<>>, 29, "m")
    [] t \in {13, 33} -> U(1, <<20>>, 15, "m")
    [] t = 8 -> U(1, <<>>, 14, "m")
    [] t = 26 -> U(2, <<10000, 10000>>, 0, "m")
    [] t = 31 -> U(25, <<>>, 28, "m")                  \* 200 / 2^31
    [] t \in {32, 56} -> U(1, <<>>, 22, "m")
    [] t \in {41, 62} -> PerSecond(U(1, <<5>>, 16, "mg"))
    [] t = 61 -> U(1, <<500>>, 16, "mg")               \* 0.4 / 200
    [] OTHER -> None
RECURSIVE DivAll(_, _)
DivAll(v, ds) == IF ds = <<>> THEN v ELSE DivAll(DivK(v, Head(ds)), Tail(ds))
RECURSIVE Shorten(_, _)
Shorten(v, p) == IF LtL(v, L(1048576)) THEN [m |-> ToInt(v), p |-> p] ELSE Shorten(ShrL(v, 1), p - 1)
RadDeg == 60078979                                     \* degrees in a radian, 2^-20
(* units of an output in one step, as m / 2^p with m of 20 bits *)
MicroDegPerStep(u) ==         \* millionths of a degree
  Shorten(DivAll(MulK(IF u.u = "rad" THEN MulInt(ShlL(L(RadDeg), 10), 1000000) ELSE MulInt(L(1073741824), 1000000), u.n), u.d), 30 + u.s)
GyrPerStep(u) ==              \* 125 deg/s are 32768
  Shorten(DivAll(MulK(DivK(IF u.u = "rad" THEN ShlL(L(RadDeg), 35) ELSE ShlL(L(1), 55), 125), u.n), u.d), 40 + u.s)
AccPerStep(u) ==              \* 8 g are 32768, g = 9.806 m/s2
  LET ms2 == DivK(ShlL(L(4096000), 38), 9806) IN
  Shorten(DivAll(MulK(CASE u.u = "m" -> ms2 [] u.u = "ft" -> MulK(DivK(ms2, 10000), 3048) [] u.u = "mg" -> DivK(ShlL(L(4096), 38), 1000), u.n), u.d), 38 + u.s)
(* raw steps, rate.n samples in rate.d seconds, in units of k, limited to 2^bits *)
Rate2(k, u, rate, raw, bits) ==
  LET r == IF u.rated THEN rate ELSE [n |-> 1, d |-> 1]
      e == SarL(MulInt(MulS(raw, k.m), r.n), k.p)
      top == MulInt(IF bits = 31 THEN <<65535, 32767, 0, 0>> ELSE L(Pow2(bits) - 1), r.d)
      v == Clamped(e, Neg(MulInt(IF bits = 31 THEN <<0, 32768, 0, 0>> ELSE L(Pow2(bits)), r.d)), top)
  IN NearW(r.d, v, AddL(L(r.d), ShrL(AbsL(v), 18)))
(* the time between two samples, where both times are known *)
Known2(a, b) == a[1] # 0 /\ b[1] # 0 /\ a[2] # 0 /\ b[2] # 0
ImuRate(st, wn, ms, type) ==
  LET p == st.imu nominal == [n |-> HzOf(type), d |-> 1] IN
  IF ~Known2(p, <<wn, ms>>) THEN nominal
  ELSE IF wn = p[1] /\ ms > p[2] THEN [n |-> 1000, d |-> ms - p[2]]
  ELSE IF wn = p[1] + 1 /\ ms < p[2] THEN [n |-> 1000, d |-> (WeekMs - p[2]) + ms]
  ELSE nominal
AngularRate(ms, b, g, rate) ==
  LET k == MicroDegPerStep(g) R(v) == Rate2(k, g, rate, v, 31) IN
  Msg(SbpAngularRate, NovSender, <<XI(ms), R(Signed(b[11])), R(Neg(Signed(b[10]))), R(Signed(b[9])), XI(1)>>)
ImuRaw(ms, b, g, a, rate) ==
  LET k == AccPerStep(a) h == GyrPerStep(g) A(v) == Rate2(k, a, rate, v, 15) R(v) == Rate2(h, g, rate, v, 15) IN
  Msg(SbpImuRaw, NovSender, <<XI(ms), XI(0), A(Signed(b[8])), A(Neg(Signed(b[7]))), A(Signed(b[6])),
                              R(Signed(b[11])), R(Neg(Signed(b[10]))), R(Signed(b[9]))>>)
AuxDue(st, wn, ms) ==
  LET p == st.aux IN
  \/ ~Known2(p, <<wn, ms>>)
  \/ wn > p[1] + 1
  \/ wn = p[1] + 1 /\ (WeekMs - p[2]) + ms >= 1000
  \/ wn = p[1] /\ ms >= p[2] + 1000
ImuAux == Msg(SbpImuAux, NovSender, <<XI(1), XI(0), XI(66)>>)

---------------------------------------------------------------------------
(* a log: what is sent, and what is remembered *)
TimeMsgs(st, wn, ms) ==
  IF st.sent /\ st.time = <<wn, ms>> THEN <<>> ELSE <<Msg(SbpGpsTime, NovSender, <<XI(wn), XI(ms), XI(0), XI(1)>>)>>
Timed(st, wn, ms) == [st EXCEPT !.time = <<wn, ms>>, !.sent = TRUE]
Out(st, outs) == [st |-> st, outs |-> outs]
NovHandle(st, id, wn, ms, b) ==
  CASE id = IdBESTPOS ->
         Out([Timed(st, wn, ms) EXCEPT !.pos = [ms |-> ms, flags |-> FixOf(b[2])]], TimeMsgs(st, wn, ms) \o <<PosLlh(ms, b)>>)
    [] id = IdBESTVEL ->
         Out(Timed(st, wn, ms), TimeMsgs(st, wn, ms) \o <<VelNed(ms, b, IF st.pos.ms = ms THEN st.pos.flags ELSE 0)>>)
    [] id = IdINSATT -> Out(st, <<OrientEuler(ms, b)>>)
    [] id = IdGPSEPHEM -> Out(st, IF InRange(b) THEN <<EphGps(b)>> ELSE <<>>)
    [] id = IdRANGECMP -> Out(st, ObsMsgs(wn, ms, b))
    [] id = IdRAWIMUSX ->
         LET type == b[2][1] usable == b[1][1] % 4 = 0
             rate == ImuRate(st, wn, ms, type) g == GyroOf(type) a == AccelOf(type)
             due == AuxDue(st, wn, ms)
         IN Out([st EXCEPT !.imu = <<wn, ms>>, !.aux = IF due THEN <<wn, ms>> ELSE @],
                (IF usable /\ rate.n > 0 /\ g # None THEN <<AngularRate(ms, b, g, rate)>> ELSE <<>>)
                \o (IF usable /\ rate.n > 0 /\ g # None /\ a # None THEN <<ImuRaw(ms, b, g, a, rate)>> ELSE <<>>)
                \o (IF due THEN <<ImuAux>> ELSE <<>>))
    [] OTHER -> Out(st, <<>>)
(* a frame of the stream *)
NovFrame(st, f) ==
  LET id == MsgId(f) body == MsgBody(f) IN
  IF ~WellFormed(id, body) THEN Out(st, <<>>)
  ELSE NovHandle(st, id, MsgWeek(f), IntOf(MsgMs(f)), BodyOf(id, body))
=============================================================================
