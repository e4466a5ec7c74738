------------------------------ MODULE RtcmSsr ------------------------------
(***************************************************************************)
(* State space representation corrections: orbit, clock, both, code biases *)
(* and phase biases, for the six systems.                                  *)
(***************************************************************************)
EXTENDS RtcmEph
SsrBase(t) == CASE t \in 1057..1062 -> 1057 [] t \in 1063..1068 -> 1063 [] t \in 1240..1245 -> 1240
                [] t \in 1246..1251 -> 1246 [] t \in 1258..1263 -> 1258 [] OTHER -> 0
SsrKind(t) ==
  IF t \in 1265..1270 THEN "phase"
  ELSE IF SsrBase(t) = 0 THEN "none"
  ELSE CASE t - SsrBase(t) = 0 -> "orbit" [] t - SsrBase(t) = 1 -> "clock" [] t - SsrBase(t) = 2 -> "code"
         [] t - SsrBase(t) = 3 -> "both" [] OTHER -> "none"
SsrSys(t) == CASE SsrBase(t) = 1057 \/ t = 1265 -> "GPS" [] SsrBase(t) = 1063 \/ t = 1266 -> "GLO"
               [] SsrBase(t) = 1240 \/ t = 1267 -> "GAL" [] SsrBase(t) = 1246 \/ t = 1268 -> "QZS"
               [] SsrBase(t) = 1258 \/ t = 1270 -> "BDS" [] OTHER -> "SBAS"
SysNum(s1) == CASE s1 = "GPS" -> 0 [] s1 = "SBAS" -> 1 [] s1 = "GLO" -> 2 [] s1 = "BDS" -> 3 [] s1 = "QZS" -> 4 [] OTHER -> 5
EpochBits(s1) == IF s1 = "GLO" THEN 17 ELSE 20
SatBits(s1) == CASE s1 = "GLO" -> 5 [] s1 = "QZS" -> 4 [] OTHER -> 6
SsrHdrBits(k, s1) == 12 + EpochBits(s1) + 4 + 1 + (IF k \in {"orbit", "both"} THEN 1 ELSE 0) + 4 + 16 + 4
                     + (IF k = "phase" THEN 2 ELSE 0) + 6
SsrHeader(b, k, s1) ==
  LET e == EpochBits(s1)
      d == IF k \in {"orbit", "both"} THEN 1 ELSE 0
      p == 12 + e + 5 + d        \* IOD SSR
      q == p + 24
      c == IF k = "phase" THEN 2 ELSE 0
  IN <<U(b, 0, 12), U(b, 12, e), L(SysNum(s1)), U(b, 12 + e, 4), U(b, 16 + e, 1), U(b, 17 + e, d), U(b, p, 4),
       U(b, p + 4, 16), U(b, p + 20, 4), IF c = 2 THEN U(b, q, 1) ELSE ZeroL, IF c = 2 THEN U(b, q + 1, 1) ELSE ZeroL,
       U(b, q + c, 6)>>
SsrNum(b, k, s1) == GetU(b, SsrHdrBits(k, s1) - 6, 6)
\* the issue of data as it is used, and the bits that carry it
IodeBits(s1) == CASE s1 \in {"GPS", "GLO", "QZS"} -> 8 [] s1 = "GAL" -> 10 [] s1 = "BDS" -> 18 [] OTHER -> 33
OrbitBits(s1) == IodeBits(s1) + 121
ClockBits == 70
OrbitOf(b, p, s1) ==
  <<CASE s1 = "BDS" -> U(b, p + 10, 8) [] s1 = "SBAS" -> U(b, p, 9) [] OTHER -> U(b, p, IodeBits(s1)),
    IF s1 = "SBAS" THEN U(b, p + 9, 24) ELSE ZeroL>>
  \o ReadAll(b, p + IodeBits(s1), <<SF(22), SF(20), SF(20), SF(21), SF(19), SF(19)>>)
ClockOf(b, p) == ReadAll(b, p, <<SF(22), SF(21), SF(27)>>)
(* satellites of code and phase bias messages vary in size: <<ok, fields>> *)
RECURSIVE BiasSats(_, _, _, _, _)
BiasSats(b, p, k, s1, n) ==
  IF n = 0 THEN Good(<<>>)
  ELSE LET sb == SatBits(s1)
           hd == sb + 5 + (IF k = "phase" THEN 17 ELSE 0)
           one == IF k = "phase" THEN 32 ELSE 19
       IN
    IF p + hd > NBits(b) THEN Fail
    ELSE LET m == GetU(b, p + sb, 5) IN
      IF p + hd + m * one > NBits(b) THEN Fail
      ELSE LET r == BiasSats(b, p + hd + m * one, k, s1, n - 1) IN
        IF ~r.ok THEN Fail
        ELSE Good(<<U(b, p, sb), L(m)>>
                  \o (IF k = "phase" THEN ReadAll(b, p + sb + 5, <<UF(9), SF(8)>>) ELSE <<>>)
                  \o FlattenSeq([j \in 1..m |->
                       IF k = "phase" THEN ReadAll(b, p + hd + 32 * (j - 1), <<UF(5), UF(1), UF(2), UF(4), SF(20)>>)
                       ELSE ReadAll(b, p + hd + 19 * (j - 1), <<UF(5), SF(14)>>)])
                  \o r.f)
SsrTypes == {t \in (1057..1068) \cup (1240..1251) \cup (1258..1263) \cup (1265..1270) : SsrKind(t) # "none"}
(* one decoder for each kind, for all systems *)
DecSsr(b, t) ==
  IF NBits(b) < 12 THEN Fail
  ELSE LET n == MsgNum(b) k == SsrKind(n) s1 == SsrSys(n) IN
    IF k = "none" \/ k # SsrKind(t) \/ NBits(b) < SsrHdrBits(k, s1) THEN Fail
    ELSE LET h == SsrHdrBits(k, s1)
             ns == SsrNum(b, k, s1)
             sb == SatBits(s1)
             one == CASE k = "orbit" -> sb + OrbitBits(s1) [] k = "clock" -> sb + ClockBits
                      [] OTHER -> sb + OrbitBits(s1) + ClockBits
         IN
      IF k \in {"code", "phase"}
      THEN LET r == BiasSats(b, h, k, s1, ns) IN IF r.ok THEN Good(SsrHeader(b, k, s1) \o r.f) ELSE Fail
      ELSE IF NBits(b) < h + ns * one THEN Fail
      ELSE Good(SsrHeader(b, k, s1) \o FlattenSeq([i \in 1..ns |->
             LET p == h + (i - 1) * one IN
               CASE k = "orbit" -> <<U(b, p, sb)>> \o OrbitOf(b, p + sb, s1)
                 [] k = "clock" -> <<U(b, p, sb)>> \o ClockOf(b, p + sb)
                 [] OTHER -> <<U(b, p, sb)>> \o OrbitOf(b, p + sb, s1) \o <<U(b, p, sb)>> \o ClockOf(b, p + sb + OrbitBits(s1))]))
Decode(b, t) == IF t \in EphTypes THEN DecEph(b, t) ELSE IF t \in SsrTypes THEN DecSsr(b, t) ELSE DecodeMain(b, t)
=============================================================================
