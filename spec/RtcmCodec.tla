----------------------------- MODULE RtcmCodec -----------------------------
(***************************************************************************)
(* RTCM 10403 message bodies: what the bits of each supported message mean.*)
(* A message is given as a sequence of bytes; its meaning as a flat        *)
(* sequence of integers (four limbs each), in the order of the fields.     *)
(* Units: pseudoranges mm, phases 1/32 mm, CNR 1/4 or 1/16 dB, positions   *)
(* 0.1 mm, biases 0.02 m, MSM ranges 2^-31 ms, rates 0.1 mm/s.             *)
(***************************************************************************)
EXTENDS Limbs, TLC

U(b, p, n) == GetUL(b, p, n)
S(b, p, n) == GetSL(b, p, n)
NBits(b) == 8 * Len(b)
Fail == [ok |-> FALSE, f |-> <<>>]
Good(f) == [ok |-> TRUE, f |-> f]
MsgNum(b) == GetU(b, 0, 12)

MaxTow == 604799999
MaxTod == 86399999

---------------------------------------------------------------------------
(* lock time tables *)
\* DF013: seconds
Lock7(i) ==
  IF i < 24 THEN i ELSE IF i < 48 THEN 2 * i - 24 ELSE IF i < 72 THEN 4 * i - 120
  ELSE IF i < 96 THEN 8 * i - 408 ELSE IF i < 120 THEN 16 * i - 1176
  ELSE IF i < 127 THEN 32 * i - 3096 ELSE 937
\* DF402: milliseconds
Lock4(i) == IF i = 0 THEN 0 ELSE 32 * Pow2(i - 1)
\* DF407: milliseconds.  i = 32 k + j: 2^(k-1) * (32 + j), linear below 64
Lock10(i) ==
  IF i < 64 THEN i
  ELSE IF i >= 704 THEN 67108864
  ELSE LET k == i \div 32 IN Pow2(k - 1) * (32 + (i % 32))

---------------------------------------------------------------------------
(* legacy observations: GPS 1001-1004, GLONASS 1010, 1012 *)
IsGlo(t) == t \in {1010, 1012}
Dual(t) == t \in {1003, 1004, 1012}
Ext(t) == t \in {1002, 1004, 1010, 1012}
TowBits(t) == IF IsGlo(t) THEN 27 ELSE 30
ObsHdrBits(t) == 34 + TowBits(t)
AmbBits(t) == IF IsGlo(t) THEN 7 ELSE 8
L1Bits(t) == (IF IsGlo(t) THEN 6 + 1 + 5 + 25 + 20 + 7 ELSE 6 + 1 + 24 + 20 + 7)
             + (IF Ext(t) THEN AmbBits(t) + 8 ELSE 0)
L2Bits(t) == IF Dual(t) THEN 43 + (IF Ext(t) THEN 8 ELSE 0) ELSE 0
ObsSatBits(t) == L1Bits(t) + L2Bits(t)
\* one unit of ambiguity: 299792.458 m, or twice that for GLONASS, in mm
AmbMm(t, n) == MulK(MulK(<<299792458 % 65536, 299792458 \div 65536, 0, 0>>, n), IF IsGlo(t) THEN 2 ELSE 1)
\* millimetres to 1/32 mm
To32(x) == MulK(x, 32)

(* the raw fields of satellite i (from 0) *)
ObsRaw(b, t, i) ==
  LET p == ObsHdrBits(t) + i * ObsSatBits(t)
      q == p + 6 + 1 + (IF IsGlo(t) THEN 5 ELSE 0)     \* pseudorange
      pn == IF IsGlo(t) THEN 25 ELSE 24
      a == q + pn + 27                                  \* ambiguity
      r == p + L1Bits(t)
  IN [sv |-> GetU(b, p, 6), code1 |-> GetU(b, p + 6, 1),
      fcn |-> IF IsGlo(t) THEN GetU(b, p + 7, 5) ELSE 0,
      pr |-> GetU(b, q, pn), d1 |-> GetS(b, q + pn, 20), lk1 |-> GetU(b, q + pn + 20, 7),
      amb |-> IF Ext(t) THEN GetU(b, a, AmbBits(t)) ELSE 0,
      cnr1 |-> IF Ext(t) THEN GetU(b, a + AmbBits(t), 8) ELSE 0,
      code2 |-> IF Dual(t) THEN GetU(b, r, 2) ELSE 0,
      dp2 |-> IF Dual(t) THEN GetS(b, r + 2, 14) ELSE 0,
      d2 |-> IF Dual(t) THEN GetS(b, r + 16, 20) ELSE 0,
      lk2 |-> IF Dual(t) THEN GetU(b, r + 36, 7) ELSE 0,
      cnr2 |-> IF Dual(t) /\ Ext(t) THEN GetU(b, r + 43, 8) ELSE 0]

(* one signal: code, validity bits (1 range, 2 phase, 4 CNR, 8 lock), range, phase, lock, CNR *)
ObsSig(t, code, pv, pr, cv, cp, lk, cnr) ==
  <<L(code), L((IF pv THEN 1 ELSE 0) + (IF cv THEN 2 ELSE 0) + (IF cnr > 0 THEN 4 ELSE 0) + (IF cv THEN 8 ELSE 0)),
    IF pv THEN pr ELSE ZeroL, IF cv THEN cp ELSE ZeroL, IF cv THEN L(Lock7(lk)) ELSE ZeroL, L(cnr)>>
ObsSat(t, r) ==
  LET p1 == AddL(AmbMm(t, r.amb), L(20 * r.pr))
      f == ~IsGlo(t) \/ r.fcn <= 20
  IN <<L(r.sv), L(r.fcn)>>
     \o ObsSig(t, r.code1, TRUE, p1, f /\ r.d1 # -524288, AddL(To32(p1), L(16 * r.d1)), r.lk1, r.cnr1)
     \o (IF Dual(t) THEN ObsSig(t, r.code2, r.dp2 # -8192, AddL(p1, L(20 * r.dp2)),
                                f /\ r.d2 # -524288, AddL(To32(p1), L(16 * r.d2)), r.lk2, r.cnr2)
         ELSE <<>>)
ObsNSat(b, t) == GetU(b, 25 + TowBits(t), 5)
ObsHeader(b, t) == <<U(b, 0, 12), U(b, 12, 12), U(b, 24, TowBits(t)), U(b, 24 + TowBits(t), 1),
                     U(b, 25 + TowBits(t), 5), U(b, 30 + TowBits(t), 1), U(b, 31 + TowBits(t), 3)>>
DecObs(b, t) ==
  IF NBits(b) < ObsHdrBits(t) \/ MsgNum(b) # t THEN Fail
  ELSE LET n == ObsNSat(b, t) IN
    IF LtU(L(IF IsGlo(t) THEN MaxTod ELSE MaxTow), U(b, 24, TowBits(t))) THEN Fail
    ELSE IF NBits(b) < ObsHdrBits(t) + n * ObsSatBits(t) THEN Fail
    ELSE Good(ObsHeader(b, t) \o FlattenSeq([i \in 1..n |-> ObsSat(t, ObsRaw(b, t, i - 1))]))

---------------------------------------------------------------------------
(* messages that are plain lists of fields: [n |-> bits, k |-> "u", "s" or "-"] *)
UF(n) == <<"u", n>>
SF(n) == <<"s", n>>
XF(n) == <<"x", n>>                       \* reserved
Width(fs) == FoldLeft(LAMBDA a, e : a + e[2], 0, fs)
ReadAll(b, p0, fs) ==
  FoldLeft(LAMBDA a, e : <<a[1] + e[2],
                           IF e[1] = "x" THEN a[2]
                           ELSE Append(a[2], IF e[1] = "u" THEN U(b, a[1], e[2]) ELSE S(b, a[1], e[2]))>>,
           <<p0, <<>>>>, fs)[2]
Plain(b, t, fs) == IF NBits(b) < 12 + Width(fs) \/ MsgNum(b) # t THEN Fail ELSE Good(ReadAll(b, 12, fs))

F1005 == <<UF(12), UF(6), UF(1), UF(1), UF(1), UF(1), SF(38), UF(1), XF(1), SF(38), UF(2), SF(38)>>
F1006 == F1005 \o <<UF(16)>>

(* a string: a length byte and as many characters, at most 32 *)
StrOk(b, p) == p + 8 <= NBits(b) /\ GetU(b, p, 8) <= 32 /\ p + 8 + 8 * GetU(b, p, 8) <= NBits(b)
StrEnd(b, p) == p + 8 + 8 * GetU(b, p, 8)
Str(b, p) == LET n == GetU(b, p, 8) IN <<L(n)>> \o [i \in 1..n |-> U(b, p + 8 * i, 8)]
(* k strings in a row, with `mid` further bits read after the first one *)
RECURSIVE Strings(_, _, _, _)
Strings(b, p, k, mid) ==
  IF k = 0 THEN Good(<<>>)
  ELSE IF ~StrOk(b, p) THEN Fail
  ELSE LET q == StrEnd(b, p) IN
    IF q + mid > NBits(b) THEN Fail
    ELSE LET r == Strings(b, q + mid, k - 1, 0) IN
      IF ~r.ok THEN Fail
      ELSE Good(Str(b, p) \o (IF mid > 0 THEN <<U(b, q, mid)>> ELSE <<>>) \o r.f)
DecStrings(b, t, k) ==
  IF NBits(b) < 24 \/ MsgNum(b) # t THEN Fail
  ELSE LET r == Strings(b, 24, k, 8) IN IF r.ok THEN Good(<<U(b, 12, 12)>> \o r.f) ELSE Fail

Dec1029(b) ==
  IF NBits(b) < 72 \/ MsgNum(b) # 1029 THEN Fail
  ELSE LET n == GetU(b, 64, 8) IN
    IF NBits(b) < 72 + 8 * n THEN Fail
    ELSE Good(ReadAll(b, 12, <<UF(12), UF(16), UF(17), UF(7), UF(8)>>) \o [i \in 1..n |-> U(b, 64 + 8 * i, 8)])

BitCount(m, n) == FoldLeft(LAMBDA a, i : a + ((m \div Pow2(i)) % 2), 0, [i \in 1..n |-> i - 1])
(* the biases present, most significant mask bit first *)
Dec1230(b) ==
  IF NBits(b) < 32 \/ MsgNum(b) # 1230 THEN Fail
  ELSE LET m == GetU(b, 28, 4)
           at(k) == 32 + 16 * BitCount(m \div Pow2(4 - k), k)   \* k biases are before it
       IN IF NBits(b) < 32 + 16 * BitCount(m, 4) THEN Fail
          ELSE Good(<<U(b, 12, 12), U(b, 24, 1), L(m)>> \o
                    [k \in 1..4 |-> IF (m \div Pow2(4 - k)) % 2 = 1 THEN S(b, at(k - 1), 16) ELSE ZeroL])

Dec4062(b) ==
  IF NBits(b) < 56 \/ MsgNum(b) # 4062 \/ GetU(b, 12, 4) # 0 THEN Fail
  ELSE LET n == GetU(b, 48, 8) IN
    IF NBits(b) < 56 + 8 * n THEN Fail
    ELSE Good(<<U(b, 16, 16), U(b, 32, 16), L(n)>> \o [i \in 1..n |-> U(b, 48 + 8 * i, 8)])

(* navigation data frames; the caller guarantees the length *)
RECURSIVE NdfFrames(_, _, _)
NdfFrames(b, p, k) ==
  IF k = 0 THEN <<>>
  ELSE LET n == GetU(b, p + 50, 12) w == (n + 31) \div 32 IN
    ReadAll(b, p, <<UF(4), UF(6), UF(4), UF(5), UF(30), UF(1), UF(12)>>)
    \o [i \in 1..w |-> U(b, p + 62 + 32 * (i - 1), IF 32 * i <= n THEN 32 ELSE n - 32 * (i - 1))]
    \o NdfFrames(b, p + 62 + n, k - 1)
Dec4075(b) ==
  IF MsgNum(b) # 4075 \/ GetU(b, 24, 2) # 0 THEN Fail
  ELSE Good(<<U(b, 12, 12), U(b, 26, 6)>> \o NdfFrames(b, 32, GetU(b, 26, 6)))

---------------------------------------------------------------------------
(* Multiple signal messages *)
MsmType(t) == IF t \in 1071..1127 /\ t % 10 \in 1..7 THEN t % 10 ELSE 0
MsmCons(t) == CASE t \in 1071..1077 -> "GPS" [] t \in 1081..1087 -> "GLO" [] t \in 1091..1097 -> "GAL"
                [] t \in 1101..1107 -> "SBAS" [] t \in 1111..1117 -> "QZS" [] t \in 1121..1127 -> "BDS"
                [] OTHER -> "none"
MsmTow(b, t) ==
  IF MsmCons(t) = "GLO" THEN U(b, 27, 27)
  ELSE LET v == U(b, 24, 30) IN
    \* Beidou: a few seconds before the start of the week appear as a wrapped 30-bit number
    IF MsmCons(t) = "BDS" /\ ~LtU(v, L(Pow2(30) - 14000))
    THEN SubL(L(604800000), SubL(L(Pow2(30)), v)) ELSE v
\* masks are transmitted first satellite first; given here with bit 0 the first
RevBits(b, p, n) ==
  [k \in 1..4 |-> FoldLeft(LAMBDA a, j : IF 16 * (k - 1) + j < n /\ BitBE(b, p + 16 * (k - 1) + j) = 1
                                          THEN a + Pow2(j) ELSE a, 0, [j \in 1..16 |-> j - 1])]
Ones(b, p, n) == FoldLeft(LAMBDA a, i : a + BitBE(b, p + i - 1), 0, [i \in 1..n |-> i])
\* positions of the set bits
SetBits(b, p, n) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : BitBE(b, p + i) = 1)

MsmDims(b) ==
  LET ns == Ones(b, 73, 64) ng == Ones(b, 137, 32) IN
  [ns |-> ns, ng |-> ng, cm |-> ns * ng]
MsmLayout(b, t) ==
  LET d == MsmDims(b) m == MsmType(t)
      nc == Ones(b, 169, d.cm)
      rate == m \in {5, 7}
      hi == m \in {6, 7}
      sat == 169 + d.cm
      info == sat + 8 * d.ns
      mod == info + (IF rate THEN 4 * d.ns ELSE 0)
      rr == mod + 10 * d.ns
      pr == rr + (IF rate THEN 14 * d.ns ELSE 0)
      prn == IF hi THEN 20 ELSE 15
      cp == pr + prn * nc
      cpn == IF hi THEN 24 ELSE 22
      lk == cp + cpn * nc
      lkn == IF hi THEN 10 ELSE 4
      hc == lk + lkn * nc
      cn == hc + nc
      cnn == IF hi THEN 10 ELSE 6
      rt == cn + cnn * nc
      end == rt + (IF rate THEN 15 * nc ELSE 0)
  IN [ns |-> d.ns, ng |-> d.ng, cm |-> d.cm, nc |-> nc, rate |-> rate, hi |-> hi, sat |-> sat, info |-> info,
      mod |-> mod, rr |-> rr, pr |-> pr, prn |-> prn, cp |-> cp, cpn |-> cpn, lk |-> lk, lkn |-> lkn, hc |-> hc,
      cn |-> cn, cnn |-> cnn, rt |-> rt, end |-> end]
\* rough range of satellite i in 2^-31 ms; the integer part 255 means none
RoughValid(b, y, i) == GetU(b, y.sat + 8 * i, 8) # 255
RoughRange(b, y, i) == ShlL(L(1024 * GetU(b, y.sat + 8 * i, 8)
                              + (IF RoughValid(b, y, i) THEN GetU(b, y.mod + 10 * i, 10) ELSE 0)), 21)
RoughRate(b, y, i) == IF y.rate THEN GetS(b, y.rr + 14 * i, 14) ELSE 0
RateValid(b, y, i) == y.rate /\ RoughRate(b, y, i) # -8192
FinePr(b, y, c) == GetS(b, y.pr + y.prn * c, y.prn)
FineCp(b, y, c) == GetS(b, y.cp + y.cpn * c, y.cpn)
FineRate(b, y, c) == GetS(b, y.rt + 15 * c, 15)
MsmSat(b, t, y, i) ==
  <<L(IF y.rate THEN GetU(b, y.info + 4 * i, 4) ELSE IF MsmCons(t) = "GLO" THEN 255 ELSE 0),
    RoughRange(b, y, i), L(RoughRate(b, y, i))>>
MsmCell(b, y, sat, c) ==
  LET pv == RoughValid(b, y, sat) /\ FinePr(b, y, c) # -Pow2(y.prn - 1)
      cv == RoughValid(b, y, sat) /\ FineCp(b, y, c) # -Pow2(y.cpn - 1)
      cnr == GetU(b, y.cn + y.cnn * c, y.cnn)
      dv == y.rate /\ RateValid(b, y, sat) /\ FineRate(b, y, c) # -16384
      lk == GetU(b, y.lk + y.lkn * c, y.lkn)
      rr == RoughRange(b, y, sat)
  IN <<L((IF pv THEN 1 ELSE 0) + (IF cv THEN 2 ELSE 0) + (IF cnr > 0 THEN 4 ELSE 0) + 8 + (IF dv THEN 16 ELSE 0)),
       IF pv THEN AddL(rr, ShlL(L(FinePr(b, y, c)), IF y.hi THEN 2 ELSE 7)) ELSE ZeroL,
       IF cv THEN AddL(rr, ShlL(L(FineCp(b, y, c)), IF y.hi THEN 0 ELSE 2)) ELSE ZeroL,
       L(IF y.hi THEN Lock10(lk) ELSE Lock4(lk)),
       U(b, y.hc + c, 1),
       L(IF y.hi THEN cnr ELSE 16 * cnr),
       IF dv THEN L(10000 * RoughRate(b, y, sat) + FineRate(b, y, c)) ELSE ZeroL>>
\* satellite index of each cell, in order
CellSat(b, y) == LET set == SetBits(b, 169, y.cm) IN [k \in 1..Len(set) |-> set[k] \div y.ng]
DecMsmOf(b, t) ==
  IF NBits(b) < 169 THEN Fail
  ELSE LET d == MsmDims(b) tow == MsmTow(b, t) IN
    IF LtU(L(IF MsmCons(t) = "GLO" THEN MaxTod ELSE MaxTow), tow) \/ d.cm > 64 \/ NBits(b) < 169 + d.cm THEN Fail
    ELSE LET y == MsmLayout(b, t) IN
      IF NBits(b) < y.end THEN Fail
      ELSE LET cs == CellSat(b, y) IN
        Good(<<U(b, 0, 12), U(b, 12, 12), tow>>
             \o ReadAll(b, 54, <<UF(1), UF(3), UF(7), UF(2), UF(2), UF(1), UF(3)>>)
             \o <<RevBits(b, 73, 64), RevBits(b, 137, 32), RevBits(b, 169, y.cm)>>
             \o FlattenSeq([i \in 1..y.ns |-> MsmSat(b, t, y, i - 1)])
             \o FlattenSeq([k \in 1..y.nc |-> MsmCell(b, y, cs[k], k - 1)]))

\* there is one decoder for each kind of MSM, for all constellations
DecMsm(b, t) ==
  IF NBits(b) < 12 THEN Fail
  ELSE LET n == MsgNum(b) IN
    IF MsmType(n) # MsmType(t) \/ MsmType(n) \notin {4, 5, 6, 7} \/ MsmCons(n) = "none" THEN Fail
    ELSE DecMsmOf(b, n)

---------------------------------------------------------------------------
DecodeMain(b, t) ==
  CASE t \in {1001, 1002, 1003, 1004, 1010, 1012} -> DecObs(b, t)
    [] t = 1005 -> Plain(b, t, F1005)
    [] t = 1006 -> Plain(b, t, F1006)
    [] t = 1007 -> DecStrings(b, t, 1)
    [] t = 1008 -> DecStrings(b, t, 2)
    [] t = 1033 -> DecStrings(b, t, 5)
    [] t = 1029 -> Dec1029(b)
    [] t = 1230 -> Dec1230(b)
    [] t = 4062 -> Dec4062(b)
    [] t = 4075 -> Dec4075(b)
    [] t \in 1070..1139 -> DecMsm(b, t)
=============================================================================
