------------------------------- MODULE R2SObs -------------------------------
(***************************************************************************)
(* What an RTCM observation says, as an SBP observation: range, phase,     *)
(* Doppler, signal strength, lock time, validity, satellite and signal.    *)
(* Physical relations are stated in exact integer arithmetic; the          *)
(* implementation may differ by its rounding to the SBP resolution.        *)
(***************************************************************************)
EXTENDS RtcmSsr, Match
(* carrier frequencies in units of 500 Hz *)
FreqOf(code, fcn) ==
  CASE code \in {0, 5, 56, 57, 58, 14, 15, 16, 2, 31, 32, 33, 34} -> 3150840      \* 1575.42 MHz
    [] code \in {1, 6, 7, 8, 35, 36, 37} -> 2455200                            \* 1227.60
    [] code \in {9, 10, 11, 26, 27, 28, 38, 39, 40, 41, 42, 43, 47, 48, 49} -> 2352900   \* 1176.45
    [] code \in {3, 29} -> IF fcn = 255 THEN 0 ELSE 3204000 + 1125 * (fcn - 7)
    [] code \in {4, 30} -> IF fcn = 255 THEN 0 ELSE 2492000 + 875 * (fcn - 7)
    [] code = 12 -> 3122196                                                    \* 1561.098
    [] code \in {13, 20, 21, 22} -> 2414280                                    \* 1207.14
    [] code \in {17, 18, 19} -> 2557500                                        \* 1278.75
    [] code \in {23, 24, 25} -> 2383590                                        \* 1191.795
    [] OTHER -> 0
(* MSM signal identifiers, from 1; -1: none *)
MsmCode(c, i) ==
  LET at(first, codes) == IF i \in first..(first + Len(codes) - 1) THEN codes[i - first + 1] ELSE -1
      or(a, b) == IF a # -1 THEN a ELSE b
  IN CASE c = "GPS" -> or(at(2, <<0, 5, 5>>), or(at(9, <<6, 6>>), or(at(15, <<1, 7, 8>>), or(at(22, <<9, 10, 11>>), at(30, <<56, 57, 58>>)))))
       [] c = "GLO" -> or(at(2, <<3, 29>>), at(8, <<4, 30>>))
       [] c = "GAL" -> or(at(2, <<15>>), or(at(4, <<14, 16>>), or(at(8, <<18>>), or(at(10, <<17, 19>>),
                       or(at(14, <<20, 21, 22>>), or(at(18, <<23, 24, 25>>), at(22, <<26, 27, 28>>)))))))
       [] c = "BDS" -> or(at(2, <<12>>), or(at(8, <<53, 54, 55>>), or(at(14, <<13>>), or(at(22, <<47, 48, 49, 50>>), at(30, <<44, 45, 46>>)))))
       [] OTHER -> -1
(* signals SBP does not carry *)
NotInSbp == {29, 30} \cup (44..46) \cup (50..55) \cup (59..63)
SysOfCons(c) == CASE c = "GPS" -> 0 [] c = "GLO" -> 2 [] c = "BDS" -> 3 [] c = "GAL" -> 5 [] OTHER -> 9
SatsOf(c) == CASE c = "GPS" -> 32 [] c = "GLO" -> 28 [] c = "GAL" -> 36 [] OTHER -> 64
LockCode(ms) == IF ms < 32 THEN 0 ELSE IF ms >= 524288 THEN 15
                ELSE CHOOSE i \in 1..14 : ms < Pow2(i + 5) /\ (i = 1 \/ ms >= Pow2(i + 4))
Bit(v, n) == (v \div n) % 2 = 1

LightSpeed2 == 149896229                        \* half the speed of light, m/s
(* pr in mm, bias in 1/64 m: P in 2 cm *)
LegacyP(pr, bias) == Near(<<160>>, AddL(MulK(pr, 8), MulInt2(bias, 125)), 82)
(* cp in 1/32 mm: L in 1/256 cycles *)
LegacyL(cp, f) == NearW(LightSpeed2, ShlL(MulInt(cp, f), 1), L(76000000))
(* one signal of a legacy message; g: code, validity, range, phase, lock, CNR *)
LegacyOb(g, sat, code, fcn, bias) ==
  <<LegacyP(g[3], bias), LegacyL(g[4], FreqOf(code, fcn)), XI(0), IF Bit(g[2][1], 4) THEN X(g[6]) ELSE XI(0),
    XI(IF Bit(g[2][1], 8) THEN LockCode(1000 * ToInt(g[5])) ELSE 0), XI(7), XI(sat), XI(code)>>

(* pr in 2^-31 ms = hi 2^20 + lo: P * 20480 *)
MsmP(pr, bias) ==
  LET hi == ShrL(pr, 20) lo == SubL(pr, ShlL(hi, 20)) IN
  Near(<<20480>>, AddL(AddL(MulInt(hi, LightSpeed2), ShrL(MulInt(lo, LightSpeed2), 20)), MulInt2(bias, 16000)), 10260)
MsmL(cp, f, bias) == NearW(16777216, AddL(MulInt(cp, f), ShlL(L(4 * bias), 24)), L(8388608 + 400000))
(* rate in 0.1 mm/s; the value fits 16 bits of hertz *)
DopV(rate, f) == Neg(ShlL(MulS(rate, f), 5))
DopLim == ShlL(L(749481145), 23)
DopFits(rate, f) == LeL(Neg(DopLim), DopV(rate, f)) /\ LtL(DopV(rate, f), SubL(DopLim, L(374740573)))
MsmD(rate, f) == NearW(749481145, DopV(rate, f), L(375000000))
(* 1/16 dB: SBP has 8 bits of 1/4 dB *)
MsmCn0(cnr) == IF cnr >= 1022 THEN XI(255) ELSE Near(<<4>>, L(cnr), 2)
(* one cell: validity, range, phase, lock, half-cycle ambiguity, CNR, rate *)
MsmOb(g, sat, code, fcn, pbias, lbias) ==
  LET v == g[1][1]
      f == FreqOf(code, fcn)
      cp == Bit(v, 2) /\ f # 0
      dop == Bit(v, 16) /\ f # 0 /\ DopFits(g[7], f)
  IN <<MsmP(g[2], pbias), IF cp THEN MsmL(g[3], f, lbias) ELSE XI(0), IF dop THEN MsmD(g[7], f) ELSE XI(0),
       IF Bit(v, 4) THEN MsmCn0(ToInt(g[6])) ELSE XI(0), XI(IF Bit(v, 8) THEN LockCode(ToInt(g[4])) ELSE 0),
       XI(1 + (IF cp THEN 2 + (IF g[5] = ZeroL THEN 4 ELSE 0) ELSE 0) + (IF dop THEN 8 ELSE 0)), XI(sat), XI(code)>>
=============================================================================
