------------------------------ MODULE UbxCodec ------------------------------
(* The u-blox messages: class, identifier, length, then a payload laid out as *)
(* the interface description's tables say.  Everything is little endian.      *)
EXTENDS Limbs

HNR_PVT == 10240    RXM_RAWX == 533     RXM_SFRBX == 531   NAV_ATT == 261
NAV_CLOCK == 290    NAV_PVT == 263      NAV_VELECEF == 273 NAV_SAT == 309
NAV_STATUS == 259   MGA_GPS_EPH == 4864 ESF_INS == 4117    ESF_MEAS == 4098
ESF_RAW == 4099
UbxTypes == {HNR_PVT, RXM_RAWX, RXM_SFRBX, NAV_ATT, NAV_CLOCK, NAV_PVT, NAV_VELECEF,
             NAV_SAT, NAV_STATUS, MGA_GPS_EPH, ESF_INS, ESF_MEAS, ESF_RAW}

Rep(n, t) == [i \in 1..n |-> t]
(* u: unsigned, s: signed, f: IEEE float (its bit pattern); the digit is the size *)
FixedPart(t) ==
  CASE t = HNR_PVT -> <<"u4", "u2">> \o Rep(6, "u1") \o <<"s4", "u1", "u1", "u1", "u1">> \o Rep(8, "s4") \o
                      Rep(4, "u4") \o Rep(4, "u1")
    [] t = NAV_PVT -> <<"u4", "u2">> \o Rep(6, "u1") \o <<"u4", "s4">> \o Rep(4, "u1") \o Rep(4, "s4") \o
                      <<"u4", "u4">> \o Rep(5, "s4") \o <<"u4", "u4", "u2">> \o Rep(6, "u1") \o <<"s4", "s2", "u2">>
    [] t = RXM_RAWX -> <<"f8", "u2", "s1">> \o Rep(5, "u1")
    [] t = RXM_SFRBX -> Rep(8, "u1")
    [] t = NAV_ATT -> <<"u4">> \o Rep(4, "u1") \o Rep(3, "s4") \o Rep(3, "u4")
    [] t = NAV_CLOCK -> <<"u4", "s4", "s4", "u4", "u4">>
    [] t = NAV_VELECEF -> <<"u4", "s4", "s4", "s4", "u4">>
    [] t = NAV_SAT -> <<"u4", "u1", "u1", "u2">>
    [] t = NAV_STATUS -> <<"u4", "u1", "u1", "u1", "u1", "u4", "u4">>
    [] t = MGA_GPS_EPH -> Rep(7, "u1") \o <<"s1", "u2", "u2", "u1", "s1", "s2", "s4", "s2", "s2", "s4", "s2", "s2",
                                           "u4", "u4", "u2", "s2", "s4", "s2", "s2", "s4", "s4", "s4", "s2", "u1", "u1">>
    [] t = ESF_INS -> <<"u4">> \o Rep(4, "u1") \o <<"u4">> \o Rep(6, "s4")
    [] t = ESF_MEAS -> <<"u4", "u2", "u2">>
    [] t = ESF_RAW -> <<"u4">>
(* a part that is repeated *)
Group(t) ==
  CASE t = RXM_RAWX -> <<"f8", "f8", "f4", "u1", "u1", "u1", "u1", "u2">> \o Rep(6, "u1")
    [] t = RXM_SFRBX -> <<"u4">>
    [] t = NAV_SAT -> <<"u1", "u1", "u1", "s1", "s2", "s2", "u4">>
    [] t = ESF_MEAS -> <<"u4">>
    [] t = ESF_RAW -> <<"u4", "u4">>
    [] OTHER -> <<>>

Size(x) == CASE x \in {"u1", "s1"} -> 1 [] x \in {"u2", "s2"} -> 2 [] x \in {"u4", "s4", "f4"} -> 4 [] x = "f8" -> 8
RECURSIVE SizeOf(_)
SizeOf(ts) == IF ts = <<>> THEN 0 ELSE Size(Head(ts)) + SizeOf(Tail(ts))
FixedSize == [t \in UbxTypes |-> SizeOf(FixedPart(t))]
GroupSize == [t \in UbxTypes |-> SizeOf(Group(t))]
Field(s, o, x) ==
  CASE x = "u1" -> L(Byte(s, o))
    [] x = "s1" -> L(SLE8(s, o))
    [] x = "u2" -> L(LE16(s, o))
    [] x = "s2" -> L(SLE16(s, o))
    [] x \in {"u4", "f4"} -> <<LE16(s, o), LE16(s, o + 2), 0, 0>>
    [] x = "s4" -> LET h == LE16(s, o + 2)
                       e == IF h >= 32768 THEN 65535 ELSE 0 IN <<LE16(s, o), h, e, e>>
    [] x = "f8" -> LE64(s, o)
RECURSIVE Fields(_, _, _)
Fields(s, o, ts) ==
  IF ts = <<>> THEN <<>> ELSE <<Field(s, o, Head(ts))>> \o Fields(s, o + Size(Head(ts)), Tail(ts))

Hdr == 4   \* class, identifier, length
TypeOf(b) == Byte(b, 0) * 256 + Byte(b, 1)
LengthOf(b) == LE16(b, 2)
(* how often the group appears, and whether the message says something representable *)
MaxSats == 100
MaxWords == 10
MaxRaw == 128
Min2(a, b) == IF a < b THEN a ELSE b
GroupCount(t, b) ==
  CASE t = RXM_RAWX -> Byte(b, Hdr + 11)
    [] t = RXM_SFRBX -> Byte(b, Hdr + 4)
    [] t = NAV_SAT -> Min2(MaxSats, Byte(b, Hdr + 5))
    [] t = ESF_MEAS -> LE16(b, Hdr + 4) \div 2048
    [] t = ESF_RAW -> IF LengthOf(b) < 4 THEN 0 ELSE (LengthOf(b) - 4) \div 8
    [] OTHER -> 0
TooMany(t, n) == (t = RXM_SFRBX /\ n > MaxWords) \/ (t = ESF_RAW /\ n > MaxRaw)
CalibTag(t, b) == t = ESF_MEAS /\ (LE16(b, Hdr + 4) \div 8) % 2 = 1
CountAt(t) == IF t = ESF_RAW THEN Hdr ELSE Hdr + FixedSize[t]

Ok == 0   Mismatch == -1   Invalid == -2
(* what decoding the bytes b as a message of type t gives *)
UbxDecode(b, t) ==
  LET fails(rc) == [rc |-> rc, f |-> <<>>, n |-> 0] IN
  IF Len(b) < 2 THEN fails(Invalid)
  ELSE IF TypeOf(b) # t THEN fails(Mismatch)
  ELSE IF Len(b) < CountAt(t) THEN fails(Invalid)
  ELSE LET n == GroupCount(t, b)
           g0 == Hdr + FixedSize[t]
           g1 == g0 + n * GroupSize[t]
           end == g1 + (IF CalibTag(t, b) THEN 4 ELSE 0)
       IN IF TooMany(t, n) \/ Len(b) < end THEN fails(Invalid)
          ELSE [rc |-> Ok, n |-> end,
                f |-> <<L(Byte(b, 0)), L(Byte(b, 1)), L(LengthOf(b))>> \o Fields(b, Hdr, FixedPart(t)) \o
                      FlattenSeq([k \in 1..n |-> Fields(b, g0 + (k - 1) * GroupSize[t], Group(t))]) \o
                      (IF CalibTag(t, b) THEN Fields(b, g1, <<"u4">>) ELSE <<>>)]
=============================================================================
