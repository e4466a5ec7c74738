------------------------------ MODULE S2RSays ------------------------------
(***************************************************************************)
(* What the RTCM messages sent for an SBP message must say: an expected    *)
(* message of SbpToRtcm related to the body that was sent, to half a unit  *)
(* of the last bit that RTCM has for each quantity.                        *)
(***************************************************************************)
EXTENDS SbpToRtcm, FiniteSets

Within2(a, b, tol) == LeL(AbsL(SubL(a, b)), tol)

---------------------------------------------------------------------------
(* plain messages and the station's coordinates *)
SaysFixed(m, d) ==
  /\ Same(<<"number of fields", m.t>>, Len(m.f), Len(d))
  /\ \A i \in 1..Len(m.f) : Same(<<"field", m.t, i>>, m.f[i], d[i])
(* x in metres against raw in 0.1 mm: at most half a unit apart *)
Metre(x, raw) ==
  LET v == F64Scaled(x, 20) IN v.ok /\ Within2(ShlL(raw, 20), MulK(v.v, 10000), L(524288 + 20000))
SaysStation(m, d) ==
  /\ Same("station: fields", 12, Len(d))
  /\ \A p \in {<<1, m.stn>>, <<2, 0>>, <<3, 1>>, <<4, 1>>, <<5, 1>>, <<6, 0>>, <<8, 1>>, <<10, 0>>} :
       Same(<<"station", p[1]>>, L(p[2]), d[p[1]])
  /\ \A p \in {<<1, 7>>, <<2, 9>>, <<3, 11>>} : Holds(<<"coordinate", p[1], m.xyz[p[1]], d[p[2]]>>, Metre(m.xyz[p[1]], d[p[2]]))
  /\ Holds(<<"antenna height", m.h, d[12]>>, NearL(L(m.h), MulK(d[12], 10), 5))

---------------------------------------------------------------------------
(* MSM.  A range of v 2^-31 ms is X20(v) in 2 cm * 20480 *)
X20(v) == LET hi == ShrL(v, 20) lo == SubL(v, ShlL(hi, 20)) IN
  AddL(MulInt(hi, O!LightSpeed2), ShrL(MulInt(lo, O!LightSpeed2), 20))
P20(o) == MulInt(o.P, 20480)
Slop == 20
RangeTol == 9151 + Slop
Bit0(v, k) == (v[1] \div Pow2(k)) % 2 = 1
(* sat: the decoded satellite; c: the decoded cell; o: the observation *)
SaysPr(o, sat, c) ==
  LET valid == Bit0(c[1], 0)
      gap == AbsL(SubL(P20(o), X20(sat[2])))
      limit == L(2 * O!LightSpeed2)
  IN IF sat[2] = Rough255 THEN ~valid
     ELSE /\ LtL(AddL(limit, L(RangeTol)), gap) => ~valid
          /\ LtL(gap, SubL(limit, L(RangeTol))) => valid
          /\ valid => Within2(P20(o), X20(c[2]), L(RangeTol))
LargePhase(o) == ~LtL(AbsL(o.L), ShlL(L(1), 37))
SaysCp(o, f, sat, c) ==
  LET valid == Bit0(c[1], 1)
      given == Flag(o, PhaseFlag) /\ f # 0
      lc == ShlL(o.L, 24)
      gap == AbsL(SubL(lc, MulInt(sat[2], f)))
      limit == ShlL(L(f), 23)
  IN IF ~given \/ sat[2] = Rough255 \/ LargePhase(o) THEN ~valid
     ELSE /\ LtL(AddL(limit, L(3 * f)), gap) => ~valid
          /\ LtL(gap, SubL(limit, L(3 * f))) => valid
          /\ valid => Within2(lc, MulInt(c[3], f), L(2 * f + Slop))
DopK(o) == MulInt2(o.D, 749481145)
SaysDop(five, o, f, sat, c) ==
  LET valid == Bit0(c[1], 4)
      given == five /\ Flag(o, DopFlag) /\ f # 0
      gap == AbsL(SubL(DopK(o), O!DopV(MulS(sat[3], 10000), f)))
      limit == ShlL(MulInt(L(f), 32), 14)
      grey == MulInt(L(f), 64)
  IN IF ~given \/ sat[3] = L(-8192) THEN ~valid
     ELSE /\ LtL(AddL(limit, grey), gap) => ~valid
          /\ LtL(gap, SubL(limit, grey)) => valid
          /\ valid => Within2(DopK(o), O!DopV(c[7], f), MulInt(L(f), 17))
SaysCell(five, o, f, sat, c) ==
  LET cnr == MinN((o.cn0 + 2) \div 4, 63) IN
  /\ SaysPr(o, sat, c) /\ SaysCp(o, f, sat, c) /\ SaysDop(five, o, f, sat, c)
  /\ c[4] = L(Lock4(o.lock)) /\ Bit0(c[1], 3)
  /\ c[5] = L(IF Flag(o, PhaseFlag) /\ f # 0 /\ ~Flag(o, HalfFlag) THEN 1 ELSE 0)
  /\ c[6] = L(16 * cnr) /\ Bit0(c[1], 2) = (cnr > 0)
(* the coarse range of a satellite comes from one of its observations *)
SaysRough(carried, sat) ==
  \E o \in carried :
    IF sat[2] = Rough255 THEN LeL(SubL(X20(SubL(Rough255, L(1048576))), L(Slop)), P20(o))
    ELSE Within2(P20(o), X20(sat[2]), L(O!LightSpeed2 + Slop))
SaysRate(five, carried, fcn, sat) ==
  LET dop == {o \in carried : Flag(o, DopFlag) /\ Freq(o.code, fcn) # 0} IN
  IF ~five THEN TRUE
  ELSE IF dop = {} THEN sat[3] = ZeroL
  ELSE \E o \in dop :
    LET f == Freq(o.code, fcn) IN
    IF sat[3] = L(-8192) THEN LeL(SubL(ShlL(MulInt(L(f), 81914999), 5), L(f)), AbsL(DopK(o)))
    ELSE Within2(DopK(o), O!DopV(MulS(sat[3], 10000), f), MulInt(L(f), 160001))

MsmHeader(m, b, d) ==
  LET glo == m.cons = "GLO" IN
  /\ \A p \in {<<1, m.t>>, <<2, m.stn>>, <<3, IF glo THEN m.tow % 86400000 ELSE m.tow>>, <<4, IF m.more THEN 1 ELSE 0>>,
               <<5, 0>>, <<6, 0>>, <<7, 1>>, <<8, 0>>, <<9, 0>>, <<10, 0>>} : Same(<<"header", m.t, p[1]>>, L(p[2]), d[p[1]])
  /\ glo => Same("day of the week", m.tow \div 86400000, GetU(b, 24, 3))
SaysMsm(m, b, d) ==
  LET five == m.t % 10 = 5
      sats == SetBits(b, 73, 64) sigs == SetBits(b, 137, 32)
      ns == Len(sats) ng == Len(sigs)
      cells == SetBits(b, 169, ns * ng)
      satId(i) == FirstSat(m.cons) + sats[i]
      sigCode(j) == SigCode(m.cons, sigs[j] + 1)
      cand(i, j) == {o \in Range(m.obs) : o.sat = satId(i) /\ o.code = sigCode(j)}
      fcnOf(i) == IF m.cons = "GLO" THEN m.fcn[satId(i)] ELSE Unknown
      satD(i) == SubSeq(d, 11 + 3 * i, 13 + 3 * i)
      cellD(k) == SubSeq(d, 14 + 3 * ns + 7 * (k - 1), 13 + 3 * ns + 7 * k)
      sent == {satId(i) : i \in 1..ns}
      used == {sigCode(j) : j \in 1..ng}
      (* of several observations of a signal, one is sent *)
      carried(i) == UNION {{o \in cand(i, (cells[k] % ng) + 1) : SaysCell(five, o, Freq(o.code, fcnOf(i)), satD(i), cellD(k))} :
                             k \in {k \in 1..Len(cells) : cells[k] \div ng = i - 1}}
      cellset == {<<satId((cells[k] \div ng) + 1), sigCode((cells[k] % ng) + 1)>> : k \in 1..Len(cells)}
  IN
  /\ MsmHeader(m, b, d)
  /\ Same(<<"length", m.t>>, 13 + 3 * ns + 7 * Len(cells), Len(d))
  /\ Holds(<<"satellites that were not observed", m.t, sent>>, sent \subseteq {o.sat : o \in Range(m.obs)})
  /\ Holds(<<"signals that were not observed", m.t, used>>, used \subseteq {o.code : o \in Range(m.obs)} /\ Cardinality(used) = ng)
  /\ \A o \in Range(m.obs) :
       Holds(<<"observation not sent though there is room", m.t, o.sat, o.code>>,
             IF o.sat \notin sent THEN (ns + 1) * ng > 64 ELSE IF o.code \notin used THEN ns * (ng + 1) > 64 ELSE <<o.sat, o.code>> \in cellset)
  /\ \A k \in 1..Len(cells) :
       LET i == (cells[k] \div ng) + 1 j == (cells[k] % ng) + 1 c == cand(i, j) IN
       Holds(<<"cell", m.t, satId(i), sigCode(j), "says", satD(i), cellD(k), "observed", c>>,
             \E o \in c : SaysCell(five, o, Freq(o.code, fcnOf(i)), satD(i), cellD(k)))
  /\ \A i \in 1..ns : carried(i) # {} =>
       /\ Holds(<<"rough range", m.t, satId(i), satD(i)>>, SaysRough(carried(i), satD(i)))
       /\ Holds(<<"rough rate", m.t, satId(i), satD(i)>>, SaysRate(five, carried(i), fcnOf(i), satD(i)))
       /\ five => Same(<<"channel", m.t, satId(i)>>, L(IF fcnOf(i) = Unknown THEN 15 ELSE fcnOf(i)), satD(i)[1])

---------------------------------------------------------------------------
(* 1004 and 1012 *)
(* v / f to the nearest, 0 <= v < 2^63, f < 2^22: a byte at a time *)
RECURSIVE DivBytes(_, _, _, _, _)
DivBytes(v, f, i, r, q) ==
  IF i < 0 THEN q
  ELSE LET limb == v[(i \div 2) + 1]
           n == 256 * r + (IF i % 2 = 1 THEN limb \div 256 ELSE limb % 256)
       IN DivBytes(v, f, i - 1, n % f, AddL(MulK(q, 256), L(n \div f)))
DivNear(v, f) == IF NegativeL(v) THEN Neg(DivBytes(AddL(Neg(v), L(f \div 2)), f, 7, 0, ZeroL))
                 ELSE DivBytes(AddL(v, L(f \div 2)), f, 7, 0, ZeroL)
(* the phase of the observation in 1/32 mm *)
Phase32(o, f) ==
  LET whole == MulS(MulS(o.Li, 128), O!LightSpeed2)
      part == DivK(MulInt(SubL(o.L, ShlL(o.Li, 8)), O!LightSpeed2), 2)
  IN DivNear(AddL(whole, part), f)
LegSig(o, f) ==
  LET cp == Flag(o, PhaseFlag) /\ Flag(o, HalfFlag) IN
  <<L(IF o.code \in {5, 6, 29, 30} THEN 1 ELSE 0),
    L(1 + (IF cp THEN 2 ELSE 0) + (IF o.cn0 > 0 THEN 4 ELSE 0) + 8), MulK(o.P, 20), IF cp THEN Phase32(o, f) ELSE ZeroL,
    L(Lock4(o.lock) \div 1000), L(o.cn0)>>
NoSig == <<ZeroL, ZeroL, ZeroL, ZeroL, ZeroL, ZeroL>>
LegBuild(m) ==
  LET fcn(s) == IF m.cons = "GLO" THEN m.fcn[s.sat] ELSE 0
      one(s) == <<L(s.sat), L(fcn(s))>> \o LegSig(s.a, Freq(s.a.code, fcn(s)))
                \o IF s.b = <<>> THEN NoSig ELSE LegSig(s.b[1], Freq(s.b[1].code, fcn(s)))
  IN <<L(m.t), L(m.stn), L(m.tow), L(IF m.more THEN 1 ELSE 0), L(Len(m.sats)), ZeroL, ZeroL>>
     \o FlattenSeq([i \in 1..Len(m.sats) |-> one(m.sats[i])])
SaysLegacy(m, d) ==
  LET f == LegBuild(m) IN ObsRel(m.t, f, d)

---------------------------------------------------------------------------
(* ephemerides: the value sent is the nearest multiple of its unit *)
NearUnit(x, raw, k) == LET v == F64Scaled(x, k + 4) IN v.ok /\ Within2(v.v, ShlL(raw, 4), L(10))
NearUnit32(x, raw, k) == LET v == F32Scaled(x, k + 4) IN v.ok /\ Within2(v.v, ShlL(raw, 4), L(10))
MulPi(raw) == LET a == AbsL(raw) v == SubL(MulInt(a, Pi28), ShrL(MulInt(a, 30716), 16)) IN IF NegativeL(raw) THEN Neg(v) ELSE v
NearSemi(x, raw, k) == LET v == F64Scaled(x, k + 28) IN v.ok /\ Within2(v.v, MulPi(raw), L(421657429 + 40000))
(* kilometres, where SBP has metres *)
NearKm(v, raw) == v.ok /\ Within2(v.v, MulS(raw, 256000), L(128000 + 1000))
(* units of 1e-10 s; 1e-10 * 2^60 = 115292150.46 *)
NearTenth(x, raw) == LET v == F32Scaled(x, 60) IN v.ok /\ Within2(v.v, MulS(raw, 115292150), L(57646075 + 8192))

Field32(b, p, d) == Holds(<<"ephemeris field", p, d[p[1]]>>, NearUnit32(F32(b, p[2]), d[p[1]], p[3]))
Field64(b, p, d) == Holds(<<"ephemeris field", p, d[p[1]]>>, NearUnit(F64(b, p[2]), d[p[1]], p[3]))
FieldSemi(b, p, d) == Holds(<<"ephemeris angle", p, d[p[1]]>>, NearSemi(F64(b, p[2]), d[p[1]], p[3]))
FieldIs(p, d) == Same(<<"ephemeris field", p[1]>>, L(p[2]), d[p[1]])
Toe(b) == F32L(b, 2)  ToeWn(b) == LE16(b, 6)  Ura(b) == F32(b, 8)  Fit(b) == LE32(b, 12)  Health(b) == U8(b, 17)
(* the radius and angle corrections, the orbit, at offset o after the group delays *)
Orbit(b, o, cr, ca, d) ==
  /\ \A p \in {<<11, o, cr>>, <<10, o + 4, cr>>, <<12, o + 8, ca>>, <<13, o + 12, ca>>, <<14, o + 16, ca>>, <<15, o + 20, ca>>} : Field32(b, p, d)
  /\ \A p \in {<<16, o + 24, 43>>, <<17, o + 32, 31>>, <<20, o + 56, 31>>, <<21, o + 64, 43>>, <<22, o + 72, 31>>, <<23, o + 80, 31>>, <<24, o + 88, 43>>} :
       FieldSemi(b, p, d)
  /\ Field64(b, <<18, o + 40, 33>>, d) /\ Field64(b, <<19, o + 48, 19>>, d)
(* the index whose accuracy is this one (a single, in m) *)
UraIs(b, mm) == LET v == F32Scaled(Ura(b), 16) IN v.ok /\ Within2(MulS(v.v, 1000), MulInt2(mm, 65536), L(65536))
SecOf(t, res) == ToInt(DivK(t, res))
SaysGps(b, d) ==
  /\ \A p \in {<<1, U8(b, 0)>>, <<2, 0>>, <<3, LE16(b, 134) % 1024>>, <<4, SecOf(Toe(b), 16)>>, <<6, IF Fit(b) = <<14400, 0>> THEN 0 ELSE 1>>,
               <<7, Health(b) % 64>>, <<28, SecOf(F32L(b, 130), 16)>>, <<29, LE16(b, 137) % 1024>>, <<30, U8(b, 136)>>, <<31, 1>>, <<32, 0>>} : FieldIs(p, d)
  /\ Holds(<<"accuracy", Ura(b), d[5]>>, UraIs(b, UraGps(ToInt(d[5]))))
  /\ Field32(b, <<8, 18, 31>>, d) /\ Orbit(b, 22, 5, 29, d)
  /\ Field32(b, <<25, 118, 31>>, d) /\ Field32(b, <<26, 122, 43>>, d) /\ Field32(b, <<27, 126, 55>>, d)
SaysGal(t, b, d) ==
  /\ \A p \in {<<1, U8(b, 0)>>, <<2, 5>>, <<3, (ToeWn(b) - 1024) % 4096>>, <<4, SecOf(Toe(b), 60)>>, <<6, 0>>,
               <<7, Health(b) % (IF t = 1046 THEN 64 ELSE 8)>>, <<28, SecOf(F32L(b, 142), 60)>>, <<29, 0>>, <<30, LE16(b, 150) % 1024>>} : FieldIs(p, d)
  /\ Holds(<<"accuracy", Ura(b), d[5]>>,
           LET i == ToInt(d[5]) IN IF i > 125 THEN i = 255 /\ Ura(b)[2] >= 32768 ELSE UraIs(b, Sisa(i)))
  /\ Field32(b, <<8, 18, 32>>, d) /\ (t = 1046 => Field32(b, <<9, 22, 32>>, d)) /\ Orbit(b, 26, 5, 29, d)
  /\ Field64(b, <<25, 122, 34>>, d) /\ Field64(b, <<26, 130, 46>>, d) /\ Field32(b, <<27, 138, 59>>, d)
BdsSec(t) == LET s == ToInt(t) - 14 IN IF s < 0 THEN s + 604800 ELSE s
BdsWeek(wn, t) == (wn - 1356 - (IF ToInt(t) < 14 THEN 1 ELSE 0)) % 8192
SaysBds(b, d) ==
  LET toc == F32L(b, 138) IN
  /\ \A p \in {<<1, U8(b, 0)>>, <<2, 3>>, <<3, BdsWeek(LE16(b, 142), toc)>>, <<6, 0>>, <<7, Health(b) % 2>>, <<29, LE16(b, 145) % 32>>,
               <<30, U8(b, 144) % 32>>} : FieldIs(p, d)
  /\ Holds(<<"toe", Toe(b), d[4]>>, NearL(MulK(d[4], 8), L(BdsSec(Toe(b))), 4))
  /\ Holds(<<"toc", toc, d[28]>>, NearL(MulK(d[28], 8), L(BdsSec(toc)), 4))
  /\ Holds(<<"accuracy", Ura(b), d[5]>>, UraIs(b, UraBds(ToInt(d[5]))))
  /\ Holds(<<"group delay 1", d[8]>>, NearTenth(F32(b, 18), d[8])) /\ Holds(<<"group delay 2", d[9]>>, NearTenth(F32(b, 22), d[9]))
  /\ Orbit(b, 26, 6, 31, d)
  /\ Field64(b, <<25, 122, 33>>, d) /\ Field32(b, <<26, 130, 50>>, d) /\ Field32(b, <<27, 134, 66>>, d)
SaysGlo(m, b, d) ==
  LET known == m.leap # NoLeap /\ LtU(Toe(b), L(604800)) /\ ToeWn(b) < 32767
      tb == ((ToInt(Toe(b)) + 10800 - m.leap) % 86400) \div 900
      axis(i) == 11 + 3 * i
  IN
  /\ \A p \in {<<1, U8(b, 0)>>, <<2, 2>>, <<4, IF Fit(b)[2] # 0 THEN 0 ELSE CASE Fit(b)[1] \div 60 = 40 -> 1 [] Fit(b)[1] \div 60 = 55 -> 2 [] OTHER -> 0>>,
               <<5, IF ~known \/ Health(b) # 0 THEN 1 ELSE 0>>, <<6, U8(b, 90) - 1>>, <<7, IF known THEN tb ELSE 0>>} : FieldIs(p, d)
  /\ Holds(<<"accuracy", Ura(b), d[3]>>, UraIs(b, UraGlo(ToInt(d[3]))))
  /\ Field32(b, <<8, 18, 40>>, d) /\ Field32(b, <<9, 22, 30>>, d) /\ Field32(b, <<10, 26, 30>>, d)
  /\ \A i \in 0..2 :
       /\ Holds(<<"position", i>>, NearKm(F64Scaled(F64(b, 30 + 8 * i), 19), d[axis(i)]))
       /\ Holds(<<"velocity", i>>, NearKm(F64Scaled(F64(b, 54 + 8 * i), 28), d[axis(i) + 1]))
       /\ Holds(<<"acceleration", i>>, NearKm(F32Scaled(F32(b, 78 + 4 * i), 38), d[axis(i) + 2]))
SaysEph(m, d) ==
  CASE m.t = 1019 -> SaysGps(m.b, d) [] m.t = 1042 -> SaysBds(m.b, d) [] m.t = 1020 -> SaysGlo(m, m.b, d) [] OTHER -> SaysGal(m.t, m.b, d)

---------------------------------------------------------------------------
(* a body sent for the expected message m *)
Says(m, b) ==
  /\ Holds(<<"not the expected message", m.t, Len(b)>>, Len(b) >= 2 /\ MsgNum(b) = m.t)
  /\ LET d == Decode(b, m.t) IN
     /\ Holds(<<"not decodable", m.t>>, d.ok)
     /\ IF m.t \in {1020, 1045, 1046} THEN Same(<<"length", m.t>>, (EphWire(m.t) + 7) \div 8, Len(b))
        ELSE Holds(<<"longer than needed", m.t>>, ~Decode(SubSeq(b, 1, Len(b) - 1), m.t).ok)
     /\ CASE m.k = "fixed" -> SaysFixed(m, d.f)
          [] m.k = "station" -> SaysStation(m, d.f)
          [] m.k = "msm" -> SaysMsm(m, b, d.f)
          [] m.k = "legacy" -> SaysLegacy(m, d.f)
          [] m.k = "eph" -> SaysEph(m, d.f)
(* the bytes written: whole frames, one after another *)
RECURSIVE Frames(_, _)
Frames(s, p) ==
  IF p > Len(s) THEN [ok |-> TRUE, b |-> <<>>]
  ELSE IF Len(s) - p + 1 < 7 \/ s[p] # 211 \/ s[p + 1] >= 4 THEN [ok |-> FALSE, b |-> <<>>]
  ELSE LET n == 256 * s[p + 1] + s[p + 2] q == p + 3 + n IN
    IF n = 0 \/ q + 2 > Len(s) \/ Crc24(SubSeq(s, p, q - 1)) # ((256 * s[q]) + s[q + 1]) * 256 + s[q + 2] THEN [ok |-> FALSE, b |-> <<>>]
    ELSE LET r == Frames(s, q + 3) IN [ok |-> r.ok, b |-> <<SubSeq(s, p + 3, q - 1)>> \o r.b]
SaysAll(ms, out) ==
  LET f == Frames(out, 1) IN
  /\ Holds(<<"not whole frames">>, f.ok)
  /\ Same("messages", [i \in 1..Len(ms) |-> ms[i].t], [i \in 1..Len(f.b) |-> IF Len(f.b[i]) < 2 THEN 0 ELSE MsgNum(f.b[i])])
  /\ \A i \in 1..Len(ms) : Says(ms[i], f.b[i])
=============================================================================
