------------------------------- MODULE R2SEph -------------------------------
(* Satellite ephemerides: every parameter of the RTCM message with its scale *)
(* factor, in the units of SBP (s, m, rad).                                  *)
EXTENDS RtcmEph, Match, R2STime
(* semicircles: raw * 2^-k, times pi; pi * 2^28 *)
Pi28 == 843314857
Semi(raw, k) == Real(k + 28, MulS(raw, Pi28), IF k = 31 THEN L(1073741824) ELSE L(16777216))
Sc(raw, k) == Exactly(k, raw)
UraGps(i) == <<2000, 2800, 4000, 5700, 8000, 11300, 16000, 32000, 64000, 128000, 256000, 512000, 1024000, 2048000, 4096000, 6144000>>[i + 1]
UraBds(i) == IF i = 15 THEN 8192000 ELSE UraGps(i)
UraGlo(i) == <<1000, 2000, 2500, 4000, 5000, 7000, 10000, 12000, 14000, 16000, 32000, 64000, 128000, 256000, 512000, 6144000>>[i + 1]
Sisa(i) == IF i <= 50 THEN 10 * i ELSE IF i <= 75 THEN 500 + 20 * (i - 50) ELSE IF i <= 100 THEN 1000 + 40 * (i - 75)
           ELSE IF i <= 125 THEN 2000 + 160 * (i - 100) ELSE -1000
FitGps(flag, iodc) ==
  3600 * (IF flag = 0 THEN 4
          ELSE IF iodc \in 240..247 THEN 8
          ELSE IF iodc \in (248..255) \cup {496} THEN 14
          ELSE IF iodc \in (497..503) \cup (1021..1023) THEN 26
          ELSE IF iodc \in 504..510 THEN 50
          ELSE IF iodc \in {511} \cup (752..756) THEN 74
          ELSE IF iodc = 757 THEN 98 ELSE 6)
FitGlo(p1) == 60 * <<70, 40, 55, 70>>[p1 + 1]
(* the parameters common to the Kepler orbits; c: bits of the radius and angle corrections *)
Kepler(f, cr, ca, a0, a1, a2, toc, iodc) ==
  <<Sc(f[11], cr), Sc(f[10], cr), Sc(f[12], ca), Sc(f[13], ca), Sc(f[14], ca), Sc(f[15], ca),
    Semi(f[16], 43), Semi(f[17], 31), Sc(f[18], 33), Sc(f[19], 19), Semi(f[20], 31), Semi(f[21], 43), Semi(f[22], 31),
    Semi(f[23], 31), Semi(f[24], 43), Sc(f[25], a0), Sc(f[26], a1), Sc(f[27], a2),
    XI(toc[2] \div 1000), XI(toc[1]), X(f[30]), X(iodc)>>
Common(sat, code, toe, ura, fit, valid, health) ==
  <<XI(sat), XI(code), XI(toe[2] \div 1000), XI(toe[1]), XI(ura), XI(fit), valid, X(health)>>
NoEph == [ok |-> FALSE, m |-> <<>>, toe |-> NoTime]
Eph(k, f, toe) == [ok |-> TRUE, m |-> Msg(k, L(61568), f), toe |-> toe]
(* where the reference is unknown, the week of the message counts *)
TimeOf(raw, res, week, ref) ==
  LET ms == raw * res * 1000 IN IF ref = NoTime THEN <<week, ms>> ELSE InNearestWeek(ms, ref)
TowOk(raw, res) == raw * res < 604800
GpsEph(f, ref) ==
  LET w == WeekCycle(ToInt(f[3]))
      toe == TimeOf(ToInt(f[4]), 16, w, ref)
      toc == TimeOf(ToInt(f[28]), 16, w, ref)
      iodc == ToInt(f[29])
  IN IF ~TowOk(ToInt(f[4]), 16) \/ ~TowOk(ToInt(f[28]), 16) THEN NoEph
     ELSE Eph("EphGps", Common(ToInt(f[1]), 0, toe, UraGps(ToInt(f[5])), FitGps(ToInt(f[6]), iodc),
                               XI(IF iodc % 256 = ToInt(f[30]) THEN 1 ELSE 0), f[7])
              \o <<Sc(f[8], 31)>> \o Kepler(f, 5, 29, 31, 43, 55, toc, f[29]), toe)
QzssEph(f) ==
  LET w == WeekCycle(ToInt(f[3])) iodc == ToInt(f[29]) IN
  Eph("EphQzss", Common(ToInt(f[1]) + 192, 31, <<w, 16000 * ToInt(f[4])>>, UraGps(ToInt(f[5])), FitGps(ToInt(f[6]), iodc),
                        IF iodc = ToInt(f[30]) THEN XI(1) ELSE IF iodc % 256 = ToInt(f[30]) THEN OneOf({L(0), L(1)}) ELSE XI(0), f[7])
       \o <<Sc(f[8], 31)>> \o Kepler(f, 5, 29, 31, 43, 55, <<w, 16000 * ToInt(f[28])>>, f[29]), NoTime)
GalEph(f, ref, source) ==
  LET w == WeekCycle(ToInt(f[3]) + 1024)
      toe == TimeOf(ToInt(f[4]), 60, w, ref)
      toc == TimeOf(ToInt(f[28]), 60, w, ref)
  IN IF ~TowOk(ToInt(f[4]), 60) \/ ~TowOk(ToInt(f[28]), 60) THEN NoEph
     ELSE Eph("EphGal", Common(ToInt(f[1]), 14, toe, Sisa(ToInt(f[5])), 14400, XI(1), f[7])
              \o <<Sc(f[8], 32), Sc(f[9], 32)>> \o Kepler(f, 5, 29, 34, 46, 59, toc, f[30]) \o <<XI(source)>>, NoTime)
(* units of 1e-10 s; 1e-10 * 2^60 = 115292150.46 *)
Tenth(raw) == Real(60, MulS(raw, 115292150), L(8192))
BdsEph(f) ==
  LET t(r) == LET n == Norm(ToInt(f[3]) + 1356, 8000 * ToInt(r) + 14000) IN <<WeekCycle(n[1]), n[2]>> IN
  Eph("EphBds", Common(ToInt(f[1]), 12, t(f[4]), UraBds(ToInt(f[5])), 10800, XI(1), f[7])
      \o <<Tenth(f[8]), Tenth(f[9])>> \o Kepler(f, 6, 31, 33, 50, 66, t(f[28]), f[29]), NoTime)
(* f: sat, 2, ura, fit, health, fcn, tb, gamma, tau, dtau, then position, velocity, acceleration of each axis *)
GloEph(f, ref, leap) ==
  LET sec == 900 * ToInt(f[7])
      toe == FromGlo(1000 * sec, leap, ref)
      km(i, k) == Sc(MulS(f[i], 1000), k)
  IN IF leap = 0 \/ ref = NoTime \/ ~GloDayOk(1000 * sec) \/ f[1] = ZeroL THEN NoEph
     ELSE Eph("EphGlo", Common(ToInt(f[1]), 3, toe, UraGlo(ToInt(f[3])), FitGlo(ToInt(f[4])), XI(1), f[5])
              \o <<km(11, 11), km(14, 11), km(17, 11), km(12, 20), km(15, 20), km(18, 20), km(13, 30), km(16, 30), km(19, 30),
                   Sc(f[8], 40), Sc(f[9], 30), Sc(f[10], 30), XI(sec % 128), XI(ToInt(f[6]) + 1)>>, NoTime)
EphOf(t, f, ref, leap) ==
  CASE t = 1019 -> GpsEph(f, ref) [] t = 1044 -> QzssEph(f) [] t = 1045 -> GalEph(f, ref, 1)
    [] t = 1046 -> GalEph(f, ref, 0) [] t = 1042 -> BdsEph(f) [] OTHER -> GloEph(f, ref, leap)
=============================================================================
