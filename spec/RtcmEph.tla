------------------------------ MODULE RtcmEph ------------------------------
(***************************************************************************)
(* RTCM 10403 broadcast ephemerides.  A layout is the list of the fields of*)
(* a message after its number: <<name, kind, bits>>, kind "u" unsigned, "s"*)
(* two's complement, "m" sign and magnitude, "x" not interpreted.          *)
(***************************************************************************)
EXTENDS RtcmCodec
Axis(i) == <<<<"vel" \o i, "m", 24>>, <<"pos" \o i, "m", 27>>, <<"acc" \o i, "m", 5>>>>
Orbit16(toebits, n) ==
  <<<<"crs", "s", n>>, <<"dn", "s", 16>>, <<"m0", "s", 32>>, <<"cuc", "s", n>>, <<"ecc", "u", 32>>, <<"cus", "s", n>>,
    <<"sqrta", "u", 32>>, <<"toe", "u", toebits>>, <<"cic", "s", n>>, <<"omega0", "s", 32>>, <<"cis", "s", n>>,
    <<"inc", "s", 32>>, <<"crc", "s", n>>, <<"w", "s", 32>>, <<"omegadot", "s", 24>>>>
GalCommon ==
  <<<<"sat", "u", 6>>, <<"wn", "u", 12>>, <<"iode", "u", 10>>, <<"ura", "u", 8>>, <<"incdot", "s", 14>>,
    <<"toc", "u", 14>>, <<"af2", "s", 6>>, <<"af1", "s", 21>>, <<"af0", "s", 31>>>> \o Orbit16(14, 16)
EphLayout(t) ==
  CASE t = 1019 ->
    <<<<"sat", "u", 6>>, <<"wn", "u", 10>>, <<"ura", "u", 4>>, <<"codeL2", "u", 2>>, <<"incdot", "s", 14>>,
      <<"iode", "u", 8>>, <<"toc", "u", 16>>, <<"af2", "s", 8>>, <<"af1", "s", 16>>, <<"af0", "s", 22>>,
      <<"iodc", "u", 10>>>> \o Orbit16(16, 16)
    \o <<<<"tgd1", "s", 8>>, <<"health", "u", 6>>, <<"L2data", "u", 1>>, <<"fit", "u", 1>>>>
  [] t = 1044 ->
    <<<<"sat", "u", 4>>, <<"toc", "u", 16>>, <<"af2", "s", 8>>, <<"af1", "s", 16>>, <<"af0", "s", 22>>, <<"iode", "u", 8>>>>
    \o Orbit16(16, 16)
    \o <<<<"incdot", "s", 14>>, <<"l2", "x", 2>>, <<"wn", "u", 10>>, <<"ura", "u", 4>>, <<"health", "u", 6>>,
         <<"tgd1", "s", 8>>, <<"iodc", "u", 10>>, <<"fit", "u", 1>>>>
  [] t = 1042 ->
    <<<<"sat", "u", 6>>, <<"wn", "u", 13>>, <<"ura", "u", 4>>, <<"incdot", "s", 14>>, <<"iode", "u", 5>>, <<"toc", "u", 17>>,
      <<"af2", "s", 11>>, <<"af1", "s", 22>>, <<"af0", "s", 24>>, <<"iodc", "u", 5>>>> \o Orbit16(17, 18)
    \o <<<<"tgd1", "s", 10>>, <<"tgd2", "s", 10>>, <<"health", "u", 1>>>>
  [] t = 1045 -> GalCommon \o <<<<"tgd1", "s", 10>>, <<"health", "u", 3>>>>
  [] t = 1046 -> GalCommon \o <<<<"tgd1", "s", 10>>, <<"tgd2", "s", 10>>, <<"health", "u", 6>>>>
  [] t = 1020 ->
    <<<<"sat", "u", 6>>, <<"fcn", "u", 5>>, <<"almh", "x", 2>>, <<"fit", "u", 2>>, <<"tk", "x", 12>>, <<"bn", "u", 1>>,
      <<"p2", "x", 1>>, <<"tb", "u", 7>>>> \o Axis("0") \o Axis("1") \o Axis("2")
    \o <<<<"p3", "x", 1>>, <<"gamma", "m", 11>>, <<"p", "x", 2>>, <<"ln3", "u", 1>>, <<"tau", "m", 22>>, <<"dtau", "m", 5>>,
         <<"en", "x", 5>>, <<"p4", "x", 1>>, <<"ura", "u", 4>>, <<"nt", "x", 11>>, <<"m", "x", 2>>, <<"more", "u", 1>>>>
MoreLayout == <<<<"na", "x", 11>>, <<"tauc", "x", 32>>, <<"n4", "x", 5>>, <<"tgps", "x", 22>>, <<"ln5", "u", 1>>>>
EphBits(t) == 12 + FoldLeft(LAMBDA a, e : a + e[3], 0, EphLayout(t))
\* the whole message on the wire, with trailing reserved bits
EphWire(t) == EphBits(t) + (CASE t = 1045 -> 7 [] t = 1046 -> 2 [] t = 1020 -> 78 [] OTHER -> 0)

SMag(b, p, n) == LET v == GetUL(b, p + 1, n - 1) IN IF GetU(b, p, 1) = 1 THEN Neg(v) ELSE v
ReadKind(b, p, k, n) == CASE k = "u" -> U(b, p, n) [] k = "s" -> S(b, p, n) [] k = "m" -> SMag(b, p, n) [] OTHER -> ZeroL
(* name -> value *)
Fields(b, p0, layout) ==
  FoldLeft(LAMBDA a, e : <<a[1] + e[3], [q \in DOMAIN a[2] \cup {e[1]} |->
                                           IF q = e[1] THEN ReadKind(b, a[1], e[2], e[3]) ELSE a[2][q]]>>,
           <<p0, [q \in {"0"} |-> ZeroL]>>, layout)[2]
SysOfEph(t) == CASE t = 1019 -> 0 [] t = 1020 -> 2 [] t = 1042 -> 3 [] t = 1044 -> 4 [] OTHER -> 5
KeplerOut(t) ==
  <<"wn", "toe", "ura", IF t \in {1019, 1044} THEN "fit" ELSE "0", "health", "tgd1", IF t \in {1042, 1046} THEN "tgd2" ELSE "0",
    "crc", "crs", "cuc", "cus", "cic", "cis", "dn", "m0", "ecc", "sqrta", "omega0", "omegadot", "w", "inc", "incdot",
    "af0", "af1", "af2", "toc", IF t \in {1045, 1046} THEN "0" ELSE "iodc", "iode",
    IF t = 1019 THEN "codeL2" ELSE "0", IF t = 1019 THEN "L2data" ELSE "0">>
GloOut == <<"fcn", "tb", "gamma", "tau", "dtau", "pos0", "vel0", "acc0", "pos1", "vel1", "acc1", "pos2", "vel2", "acc2">>
EphTypes == {1019, 1020, 1042, 1044, 1045, 1046}
DecEph(b, t) ==
  IF NBits(b) < EphBits(t) \/ MsgNum(b) # t THEN Fail
  ELSE LET f == Fields(b, 12, EphLayout(t)) IN
    IF t = 1042 /\ f["sat"][1] <= 5 THEN Fail       \* geostationary satellites are not supported
    ELSE IF t # 1020 THEN Good(<<f["sat"], L(SysOfEph(t))>> \o [i \in 1..Len(KeplerOut(t)) |-> f[KeplerOut(t)[i]]])
    ELSE LET more == f["more"][1] = 1 IN
      IF more /\ NBits(b) < EphBits(t) + 71 THEN Fail
      ELSE LET bad == \/ f["bn"][1] = 1 \/ f["ln3"][1] = 1
                      \/ more /\ Fields(b, EphBits(t), MoreLayout)["ln5"][1] = 1
           IN Good(<<f["sat"], L(2), f["ura"], f["fit"], L(IF bad THEN 1 ELSE 0)>>
                   \o [i \in 1..Len(GloOut) |-> f[GloOut[i]]])
=============================================================================
