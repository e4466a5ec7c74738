------------------------------ MODULE NmeaText ------------------------------
(***************************************************************************)
(* The SBP to NMEA converter: what a sentence says.  A sentence is `$', a  *)
(* body of fields between commas, `*', the checksum of the body and CR LF. *)
(* For every field: the text, or the number it has to be near, with the    *)
(* digits it has.                                                          *)
(***************************************************************************)
EXTENDS NmeaTiming, Floats, Sine, Explain
Chars == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
CharAt(s, i) == SubSeq(s, i, i)
AsciiOf == [c \in {CharAt(Chars, i) : i \in 1..36} |-> LET i == CHOOSE j \in 1..36 : CharAt(Chars, j) = c IN IF i <= 10 THEN 47 + i ELSE 54 + i]
A(s) == [i \in 1..Len(s) |-> AsciiOf[CharAt(s, i)]]

---------------------------------------------------------------------------
(* the outside of a sentence *)
RECURSIVE Split(_, _)
Split(s, i) ==        \* the fields of s from its i-th byte on
  LET ends == {j \in i..Len(s) : s[j] = 44} IN
  IF ends = {} THEN <<SubSeq(s, i, Len(s))>>
  ELSE LET j == CHOOSE x \in ends : \A y \in ends : x <= y IN <<SubSeq(s, i, j - 1)>> \o Split(s, j + 1)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
WholeSentence(b) ==
  LET n == Len(b) IN
  /\ n >= 6 /\ b[1] = 36 /\ b[n] = 10 /\ b[n - 1] = 13 /\ b[n - 4] = 42
  /\ \A i \in 2..n - 5 : b[i] \in 32..126 /\ b[i] \notin {36, 42}
  /\ LET x == Xor8(SubSeq(b, 2, n - 5)) IN b[n - 3] = HexDigit(x \div 16) /\ b[n - 2] = HexDigit(x % 16)
BodyFields(b) == Split(SubSeq(b, 2, Len(b) - 5), 1)
Tag(f) == IF f = A("PUBX") THEN PUBX ELSE IF Len(f) # 5 THEN -1 ELSE
  LET t == SubSeq(f, 3, 5) IN
  CASE t = A("GGA") -> GGA [] t = A("RMC") -> RMC [] t = A("VTG") -> VTG [] t = A("HDT") -> HDT [] t = A("GLL") -> GLL
    [] t = A("ZDA") -> ZDA [] t = A("GSA") -> GSA [] t = A("GST") -> GST [] t = A("GSV") -> GSV [] t = A("THS") -> THS [] OTHER -> -1

---------------------------------------------------------------------------
(* fields *)
Text(s) == [c |-> "text", v |-> A(s)]
Bytes(b) == [c |-> "text", v |-> b]
Empty == Bytes(<<>>)
Either(S) == [c |-> "either", s |-> S]
(* a number with d decimals, at least w digits before them *)
Num(w, d, is) == [c |-> "num", w |-> w, d |-> d, is |-> is]
Is(v) == [t |-> "near", m |-> 1, v |-> v, tol |-> ZeroL]
Is1(n) == Is(L(n))
(* times m within tol of v (limbs) *)
About(m, v, tol) == [t |-> "near", m |-> m, v |-> v, tol |-> tol]
Digit(b) == b >= 48 /\ b <= 57
RECURSIVE Value(_, _)
Value(s, acc) == IF s = <<>> THEN acc ELSE Value(Tail(s), AddL(MulK(acc, 10), L(Head(s) - 48)))
RECURSIVE SmallVal(_, _)
SmallVal(s, acc) == IF s = <<>> THEN acc ELSE SmallVal(Tail(s), acc * 10 + (Head(s) - 48))
NumberOf(f, w, d) ==
  LET neg == f # <<>> /\ f[1] = 45
      g == IF neg THEN Tail(f) ELSE f
      n == Len(g) - (IF d = 0 THEN 0 ELSE d + 1)          \* digits before the point
      w1 == IF neg /\ w > 1 THEN w - 1 ELSE w
      digits == IF d = 0 THEN g ELSE SubSeq(g, 1, n) \o SubSeq(g, n + 2, Len(g))
      ok == /\ n >= w1 /\ (d > 0 => g[n + 1] = 46) /\ Len(g) <= 18
            /\ \A i \in 1..Len(digits) : Digit(digits[i])
            /\ (n > w1 => g[1] # 48)
      v == IF ok THEN Value(digits, ZeroL) ELSE ZeroL
  IN [ok |-> ok, v |-> IF neg THEN Neg(v) ELSE v]

MulInt(v, n) == AddL(ShlL(MulK(v, n \div 32768), 15), MulK(v, n % 32768))      \* v >= 0, 0 <= n < 2^30
TimesS(v, n) == IF NegativeL(v) THEN Neg(MulInt(Neg(v), n)) ELSE MulInt(v, n)
Times(v, n) == IF n < 0 THEN Neg(TimesS(v, -n)) ELSE TimesS(v, n)
MulU(a, b) == AddL(AddL(MulInt(a, b[1]), ShlL(MulInt(a, b[2]), 16)), AddL(ShlL(MulInt(a, b[3]), 32), ShlL(MulInt(a, b[4]), 48)))
Sq(a) == MulU(AbsL(a), AbsL(a))
Pos(a) == IF NegativeL(a) THEN ZeroL ELSE a
Dbl(x, s) == LET q == F64Scaled(x, s) IN IF q.ok THEN q.v ELSE ZeroL
SarL1(v, n) == IF NegativeL(v) THEN Neg(ShrL(Neg(v), n)) ELSE ShrL(v, n)

(* degrees and minutes: w digits and MM.MMMMMMM, within half of 10^-8 degrees *)
Deg(w, x) == [c |-> "deg", w |-> w, x |-> x]
DegOk(f, w, x) ==
  /\ Len(f) = w + 10 /\ f[w + 3] = 46
  /\ \A i \in 1..Len(f) : i = w + 3 \/ Digit(f[i])
  /\ LET deg == SmallVal(SubSeq(f, 1, w), 0)
         min == SmallVal(SubSeq(f, w + 1, w + 2) \o SubSeq(f, w + 4, w + 10), 0)
         d == SubL(AbsL(Dbl(x, 34)), ShlL(L(deg), 34))
     IN /\ min < 600000000
        /\ LeL(AbsL(d), ShlL(L(1025), 24))
        /\ LeL(AbsL(SubL(TimesS(d, 100000000), DivK(ShlL(L(min), 33), 3))), ShlL(L(522), 24))
Dir(x, pos, neg) ==
  LET v == Dbl(x, 40) IN
  IF LtL(AbsL(v), L(6000)) THEN Either({Text(pos), Text(neg)}) ELSE Text(IF NegativeL(v) THEN neg ELSE pos)

(* speeds, from the square of the velocity over ground in (mm/s)^2 *)
Knots(q) == [t |-> "speed", sq |-> AddL(MulInt(q, 37785), ShrL(MulInt(q, 20585), 16))]
Kmh(q) == [t |-> "speed", sq |-> MulInt(q, 129600)]
SpeedOk(n, c) == LET m == MulInt(n, 1000) IN LeL(Sq(Pos(SubL(m, L(502)))), c.sq) /\ LeL(c.sq, Sq(AddL(m, L(502))))
(* the course of a velocity <<n, e>>, in tenths of a degree below 3600 *)
Course(v) == [t |-> "course", v |-> v]
Product(a, b) == Times(L(a), b)
CourseOk(n, v) ==
  LET a == (ToInt(n) * 16384) \div 10
      s == SinAt(a) c == SinAt(a + 90 * 16384)
      cross == SubL(Product(v[1], s), Product(v[2], c))
      q == AddL(Sq(L(v[1])), Sq(L(v[2])))
  IN /\ SmallL(n) /\ ToInt(n) < 3600
     /\ LtL(ZeroL, AddL(Product(v[1], c), Product(v[2], s)))
     /\ LeL(Sq(Pos(SubL(ShrL(AbsL(cross), 16), L(2)))), ShrL(MulK(q, 3700), 16))
(* covariances are singles in m^2: T gives them in 10^-12 m^2 *)
T(x) == LET e == F32Exp(x) m == MulInt(F32Mant(x), 244140625)
            v == IF e >= 138 THEN ShlL(m, e - 138) ELSE ShrL(m, 138 - e)
        IN IF x[2] >= 32768 THEN Neg(v) ELSE v
(* the square root of t: steps of s micrometres *)
RootOf(s, t) == [t |-> "root", s |-> s, v |-> t]
RootOk(n, c) ==
  LET m == MulInt(n, c.s) slack == AddL(ShrL(m, 21), L(c.s + 2)) IN
  LeL(Sq(Pos(SubL(MulK(m, 2), slack))), MulK(c.v, 4)) /\ LeL(MulK(c.v, 4), Sq(AddL(MulK(m, 2), slack)))
(* the ellipse of a covariance: nn, ee, ne *)
RECURSIVE Bits64(_, _)
Bits64(v, k) == IF v = ZeroL THEN k ELSE Bits64(ShrL(v, 1), k + 1)
Ellipse(p) ==
  LET n == T(p[5]) c == T(p[6]) e == T(p[7]) t == AddL(n, e)
      b == Bits64(t, 0)  k == IF b > 27 THEN b - 27 ELSE 0
      i(v) == ToInt(SarL1(v, k))
  IN [k |-> k, n |-> i(n), e |-> i(e), c |-> i(c), t |-> i(n) + i(e)]
Axis(major, l) == [t |-> "axis", major |-> major, l |-> l]
AxisOk(n, c) ==
  LET l == c.l  a == ShrL(Sq(n), l.k)
      g2 == AddL(Sq(L(l.n - l.e)), MulK(Sq(L(l.c)), 4))
      e == IF c.major THEN SubL(MulK(a, 2), L(l.t)) ELSE SubL(L(l.t), MulK(a, 2))
      tol == AddL(L((l.t \div 1000) + 4), ShrL(n, l.k))
  IN /\ LeL(Neg(tol), e)
     /\ LeL(Sq(Pos(SubL(AbsL(e), tol))), g2) /\ LeL(g2, Sq(AddL(AbsL(e), tol)))
Tilt(l) == [t |-> "tilt", l |-> l]
TiltOk(o, c) ==
  LET l == c.l
      a == (ToInt(o) * 16384) \div 5           \* twice the angle
      s == SinAt(a) co == SinAt(a + 90 * 16384)
      d == l.n - l.e
      abs(x) == IF x < 0 THEN -x ELSE x
      noise == ShlL(L((l.t \div 500) + 4), 24)
  IN /\ SmallL(o) /\ ToInt(o) \in -3600..3600
     /\ LeL(AbsL(SubL(Product(d, s), Times(Product(l.c, co), 2))), AddL(noise, MulInt(L(abs(d) + (2 * abs(l.c))), 31000)))
     /\ LeL(Neg(noise), AddL(Product(d, co), Times(Product(l.c, s), 2)))

NumOk(n, is) ==
  CASE is.t = "near" -> LeL(AbsL(SubL(TimesS(n, is.m), is.v)), is.tol)
    [] is.t = "speed" -> ~NegativeL(n) /\ SpeedOk(n, is)
    [] is.t = "course" -> ~NegativeL(n) /\ CourseOk(n, is.v)
    [] is.t = "root" -> ~NegativeL(n) /\ RootOk(n, is)
    [] is.t = "axis" -> ~NegativeL(n) /\ AxisOk(n, is)
    [] is.t = "tilt" -> TiltOk(n, is)
RECURSIVE FieldOk(_, _)
FieldOk(d, f) ==
  CASE d.c = "text" -> f = d.v
    [] d.c = "either" -> \E x \in d.s : FieldOk(x, f)
    [] d.c = "num" -> LET n == NumberOf(f, d.w, d.d) IN n.ok /\ NumOk(n.v, d.is)
    [] d.c = "deg" -> DegOk(f, d.w, d.x)
MatchSentence(k, d, fs) ==
  /\ Same(<<"sentence", k, "number of fields">>, Len(d), Len(fs))
  /\ \A i \in 1..Len(d) :
       IF FieldOk(d[i], fs[i]) THEN TRUE ELSE PrintT(<<"MISMATCH sentence", k, "field", i - 1, "expected", d[i], "observed", fs[i]>>) /\ FALSE

---------------------------------------------------------------------------
(* times *)
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* to the nearest hundredth of a second *)
Rounded(u) ==
  LET cs == (u[9] + 5000000) \div 10000000
      s == u[8] + (cs \div 100)  mi == u[7] + (s \div 60)  h == u[6] + (mi \div 60)
      d == u[5] + (h \div 24)  md == DaysIn(u[3], u[4])
      mo == u[4] + (IF d > md THEN 1 ELSE 0)
  IN [cs |-> cs % 100, s |-> s % 60, mi |-> mi % 60, h |-> h % 24, d |-> IF d > md THEN 1 ELSE d,
      mo |-> IF mo > 12 THEN 1 ELSE mo, y |-> IF mo > 12 THEN u[3] + 1 ELSE u[3]]
TimeKnown(u) == u[2] % 8 # 0
TimeField(u) == IF ~TimeKnown(u) THEN Empty ELSE
  LET r == Rounded(u) IN Bytes(Two(r.h) \o Two(r.mi) \o Two(r.s) \o <<46>> \o Two(r.cs))
DateField(u) == IF ~TimeKnown(u) THEN Empty ELSE LET r == Rounded(u) IN Bytes(Two(r.d) \o Two(r.mo) \o Two(r.y % 100))
DateFields(u) == IF ~TimeKnown(u) THEN <<Empty, Empty, Empty>> ELSE
  LET r == Rounded(u) IN <<Bytes(Two(r.d)), Bytes(Two(r.mo)), Bytes(Decimal(r.y))>>

---------------------------------------------------------------------------
(* the solution *)
ModeOf(flags) == flags % 8          \* 0 none, 1 single, 2 differential, 3 float, 4 fixed, 5 dead reckoning, 6 SBAS
Fix(p) == ModeOf(p[10]) # 0
Dead(p) == ModeOf(p[10]) = 5
Corrected(p) == ModeOf(p[10]) \in {2, 3, 4}
LatLon(p) == IF ~Fix(p) THEN <<Empty, Empty, Empty, Empty>>
  ELSE <<Deg(2, p[2]), Dir(p[2], "N", "S"), Deg(3, p[3]), Dir(p[3], "E", "W")>>
Status(p) == Text(IF Fix(p) THEN "A" ELSE "V")
ModeLetter(p) == Text(CASE ModeOf(p[10]) = 0 -> "N" [] ModeOf(p[10]) = 1 -> "A" [] Dead(p) -> "E" [] OTHER -> "D")
Quality(p) == CASE ModeOf(p[10]) = 0 -> "0" [] ModeOf(p[10]) = 1 -> "1" [] ModeOf(p[10]) \in {2, 6} -> "2"
                [] ModeOf(p[10]) = 3 -> "5" [] ModeOf(p[10]) = 4 -> "4" [] Dead(p) -> "6"
(* the geoid model's stand-in: half the latitude less a quarter of the longitude, in degrees; 2^-30 m *)
Geoid(p) == SarL1(SubL(MulK(Dbl(p[2], 30), 2), Dbl(p[3], 30)), 2)
Metres(v) == Num(1, 2, About(1073741824 \div 64, SarL1(TimesS(v, 100), 6), L((538000000 \div 64) + 20000)))     \* 0.501 cm
Altitude(p) == Metres(SubL(Dbl(p[4], 30), Geoid(p)))
Separation(p) == Metres(Geoid(p))
Dop(x) == Num(1, 1, About(10, L(x), L(5)))
AgeField(x) == Num(1, 1, Is1(x))
Pad4(n) == Two(n \div 100) \o Two(n % 100)
TheAge(st) == IF st.fused THEN st.msg[SolnMeta][4] ELSE st.msg[AgeCorr][2]
TheHdop(st) == IF st.fused THEN st.msg[SolnMeta][2] ELSE st.msg[Dops][3]
TheVdop(st) == IF st.fused THEN st.msg[SolnMeta][3] ELSE st.msg[Dops][4]
ThePos(st) == st.msg[IF st.fused THEN PosLlhCov ELSE PosGnss]
TheTime(st) == st.msg[IF st.fused THEN UtcTime ELSE UtcTimeGnss]
TheVel(st) == st.msg[IF st.fused THEN VelNed ELSE VelGnss]

GgaSays(st) ==
  LET p == ThePos(st) IN
  <<Text("GPGGA"), TimeField(TheTime(st))>> \o LatLon(p) \o <<Text(Quality(p))>> \o
  (IF ~Fix(p) THEN <<Empty, Empty, Empty, Text("M"), Empty, Text("M"), Empty, Empty>>
   ELSE <<Num(2, 0, Is1(p[9])), IF Dead(p) THEN Empty ELSE Dop(TheHdop(st)), Altitude(p), Text("M"), Separation(p), Text("M")>>
        \o (IF Corrected(p) THEN <<AgeField(TheAge(st)), Bytes(Pad4(st.base % 1024))>> ELSE <<Empty, Empty>>))

(* velocity: the course is that of the last velocity that was not too slow for one,
   and is left out below a speed of its own *)
SpeedSq(v) == AddL(Sq(L(v[2])), Sq(L(v[3])))
Heading(v) == IF v[2] = 0 /\ v[3] = 0 THEN <<1, 0>> ELSE <<v[2], v[3]>>
Moves(st, v) == LeL(Sq(L(st.still)), SpeedSq(v))
HeldAfter(st, held, k) == IF k \in {RMC, VTG, PUBX} /\ Moves(st, TheVel(st)) THEN Heading(TheVel(st)) ELSE held
HasVel(v) == v[5] % 8 # 0
CourseField(st, held, k) ==
  LET v == TheVel(st) q == SpeedSq(v) limit == Sq(L(st.cog))
      c == Num(1, 1, Course(HeldAfter(st, held, k)))
  IN IF ~HasVel(v) THEN Empty ELSE IF q = limit THEN Either({c, Empty}) ELSE IF LtL(limit, q) THEN c ELSE Empty
SpeedField(v, unit) == IF ~HasVel(v) THEN Empty ELSE Num(1, 2, IF unit = "kn" THEN Knots(SpeedSq(v)) ELSE Kmh(SpeedSq(v)))
RmcSays(st, held) ==
  LET p == ThePos(st) v == TheVel(st) u == TheTime(st) IN
  <<Text("GPRMC"), TimeField(u), Status(p)>> \o LatLon(p)
  \o <<SpeedField(v, "kn"), CourseField(st, held, RMC), DateField(u), Empty, Empty, ModeLetter(p)>>
VtgSays(st, held) ==
  LET v == TheVel(st) IN
  <<Text("GPVTG"), CourseField(st, held, VTG), Text("T"), Empty, Text("M"), SpeedField(v, "kn"), Text("N"), SpeedField(v, "kmh"), Text("K"),
    ModeLetter(ThePos(st))>>
GllSays(st) == LET p == ThePos(st) IN <<Text("GPGLL")>> \o LatLon(p) \o <<TimeField(TheTime(st)), Status(p), ModeLetter(p)>>
ZdaSays(st) == LET u == TheTime(st) IN <<Text("GPZDA"), TimeField(u)>> \o DateFields(u) \o <<Empty, Empty>>
HdtSays(st) == LET h == st.msg[Hdg] near == Num(1, 2, About(10, L(h[2]), L(5))) IN
  <<Text("GPHDT"), IF ModeOf(h[3]) # 4 THEN Empty ELSE IF h[2] >= 359995 THEN Either({near, Num(1, 2, Is1(0))}) ELSE near, Text("T")>>
ThsSays(st) ==
  LET o == st.msg[OrientEuler] p == ThePos(st)
      yaw == ((o[2] % 360000000) + 360000000) % 360000000
      near == Num(1, 2, About(10000, L(yaw), L(5000)))
  IN <<Text("GPTHS")>> \o
     (IF ~Fix(p) \/ o[3] % 8 = 0 THEN <<Empty, Text("V")>>
      ELSE <<IF yaw >= 359995000 THEN Num(1, 2, Is1(0)) ELSE near, Text(IF Dead(p) THEN "E" ELSE "A")>>)

(* satellites *)
System(code) ==
  CASE code \in {0, 1} \cup (5..11) \cup (56..59) -> "GPS" [] code \in {2, 41, 42, 43, 60} -> "SBAS" [] code \in {3, 4, 29, 30} -> "GLO"
    [] code \in {12, 13, 63} \cup (44..55) -> "BDS" [] code \in (14..28) \cup {61} -> "GAL" [] code \in {62} \cup (31..40) -> "QZS" [] OTHER -> "none"
Talkers == <<"GP", "GL", "GA", "GB">>
TalkerOf(sys) == CASE sys \in {"GPS", "SBAS", "QZS"} -> 1 [] sys = "GLO" -> 2 [] sys = "GAL" -> 3 [] sys = "BDS" -> 4 [] OTHER -> 0
(* SBAS 33.., GLONASS 65.., QZSS 193.., Galileo 301.., BeiDou 401.. *)
SatId(sat, code) == LET s == System(code) IN
  CASE s = "SBAS" -> sat - 87 [] s = "GLO" -> sat + 64 [] s = "GAL" -> sat + 300 [] s = "BDS" -> sat + 400 [] OTHER -> sat
HeardTalkers(st) == {TalkerOf(System(st.obs.list[i][2])) : i \in 1..Len(st.obs.list)} \ {0}
GstSays(st) ==
  LET p == ThePos(st) heard == HeardTalkers(st) u == TheTime(st) l == Ellipse(p) S(x) == Num(1, 6, RootOf(1, T(x))) IN
  IF ~Fix(p) \/ heard = {} THEN <<Text("GPGST"), TimeField(u), Empty, Empty, Empty, Empty, Empty, Empty, Empty>>
  ELSE <<Bytes((IF \E x, y \in heard : x # y THEN A("GN") ELSE A(Talkers[CHOOSE x \in heard : TRUE])) \o A("GST")), TimeField(u), Empty,
         Num(1, 6, Axis(TRUE, l)), Num(1, 6, Axis(FALSE, l)), Num(1, 1, Tilt(l)), S(p[5]), S(p[7]), S(p[8])>>
PubxSays(st, held) ==
  LET p == ThePos(st) v == TheVel(st) m == ModeOf(p[10])
      Speeds == IF ~HasVel(v) THEN <<Empty, Empty, Empty>>
                ELSE <<SpeedField(v, "kmh"), CourseField(st, held, PUBX), Num(1, 2, About(10, L(v[4]), L(5)))>>
      Dopses == IF ~Fix(p) \/ Dead(p) THEN <<Empty, Empty, Empty>>
                ELSE <<Dop(TheHdop(st)), Dop(TheVdop(st)), IF st.fused THEN Empty ELSE Dop(st.msg[Dops][5])>>
  IN <<Text("PUBX"), Text("00"), TimeField(TheTime(st))>> \o LatLon(p) \o <<IF Fix(p) THEN Metres(Dbl(p[4], 30)) ELSE Empty>>
     \o <<Text(CASE m = 0 -> "NF" [] m = 5 -> "DR" [] m \in {2, 3, 4} -> "D3" [] OTHER -> "G3")>>
     \o (IF Fix(p) THEN <<Num(1, 1, RootOf(100000, AddL(T(p[5]), T(p[7])))), Num(1, 1, RootOf(100000, T(p[8])))>> ELSE <<Empty, Empty>>)
     \o Speeds \o <<IF Corrected(p) THEN AgeField(TheAge(st)) ELSE Empty>> \o Dopses
     \o <<Num(1, 0, Is1(p[9])), Text("0"), Text(IF Dead(p) THEN "1" ELSE "0")>>

(* the satellites used, by system: at most twelve each, in the order of their numbers *)
RECURSIVE Collect(_, _, _)
Collect(list, talker, acc) ==
  IF list = <<>> THEN acc
  ELSE LET s == Head(list) id == SatId(s[1], s[2]) IN
       Collect(Tail(list), talker, IF TalkerOf(System(s[2])) = talker /\ Len(acc) < 12 /\ (\A i \in 1..Len(acc) : acc[i] # id) THEN Append(acc, id) ELSE acc)
Ordered(s) == SortSeq(s, LAMBDA a, b : a < b)
UsedOf(st) == LET all == [t \in 1..4 |-> Ordered(Collect(st.obs.list, t, <<>>))] IN SelectSeq(<<1, 2, 3, 4>>, LAMBDA t : all[t] # <<>>)
GsaParts(st) == LET n == Len(UsedOf(st)) IN IF n = 0 THEN 1 ELSE n
GsaSays(st, i) ==
  LET ts == UsedOf(st) n == Len(ts)
      ids == IF n = 0 THEN <<>> ELSE Ordered(Collect(st.obs.list, ts[i], <<>>))
      d == st.msg[Dops]  fix == d[6] % 8 # 0
      who == IF n = 0 THEN "GP" ELSE IF n > 1 THEN "GN" ELSE Talkers[ts[1]]
  IN <<Bytes(A(who) \o A("GSA")), Text("A"), Text(IF fix THEN "3" ELSE "1")>>
     \o [j \in 1..12 |-> IF j <= Len(ids) THEN Num(2, 0, Is1(ids[j])) ELSE Empty]
     \o (IF fix THEN <<Dop(d[2]), Dop(d[3]), Dop(d[4])>> ELSE <<Empty, Empty, Empty>>)

(* the satellites in view, by system, four to a sentence *)
RECURSIVE Seen(_, _)
Seen(v, talker) == IF v = <<>> THEN <<>>
  ELSE (IF TalkerOf(System(v[2])) = talker THEN <<SubSeq(v, 1, 4)>> ELSE <<>>) \o Seen(SubSeq(v, 5, Len(v)), talker)
RECURSIVE Strength(_, _, _)      \* of the first signal listed, in 1/4 dB Hz
Strength(v, sat, sys) == IF v = <<>> THEN -1 ELSE IF v[1] = sat /\ System(v[2]) = sys THEN v[3] ELSE Strength(SubSeq(v, 4, Len(v)), sat, sys)
GsvOf(n) == (n + 3) \div 4
RECURSIVE GsvList(_, _)          \* talker and part of every sentence
GsvList(v, t) == IF t > 4 THEN <<>> ELSE [i \in 1..GsvOf(Len(Seen(v, t))) |-> <<t, i>>] \o GsvList(v, t + 1)
GsvParts(st) == LET n == Len(GsvList(st.msg[SvAzEl], 1)) IN IF n = 0 THEN 1 ELSE n
GsvSays(st, i) ==
  LET v == st.msg[SvAzEl] ps == GsvList(v, 1) IN
  IF ps = <<>> THEN <<Text("GPGSV"), Text("1"), Text("1"), Either({Text("0"), Text("00")})>>
  ELSE LET t == ps[i][1] part == ps[i][2] all == Seen(v, t) n == Len(all)
           last == IF 4 * part < n THEN 4 * part ELSE n
           Cell(s) == LET c == Strength(st.msg[MeasState], s[1], System(s[2])) IN
             <<Num(2, 0, Is1(SatId(s[1], s[2]))), Num(2, 0, Is1(s[4])), Num(3, 0, Is1(2 * s[3])), IF c < 0 THEN Empty ELSE Num(2, 0, About(4, L(c), L(2)))>>
           Cells4 == [j \in 1..4 |-> IF (4 * part) - 4 + j <= last THEN Cell(all[(4 * part) - 4 + j]) ELSE <<>>]
       IN <<Bytes(A(Talkers[t]) \o A("GSV")), Bytes(Decimal(GsvOf(n))), Bytes(Decimal(part)), Num(2, 0, Is1(n))>>
          \o Cells4[1] \o Cells4[2] \o Cells4[3] \o Cells4[4]

Says(st, held, k, part) ==
  CASE k = GGA -> GgaSays(st) [] k = RMC -> RmcSays(st, held) [] k = VTG -> VtgSays(st, held) [] k = HDT -> HdtSays(st) [] k = GLL -> GllSays(st)
    [] k = ZDA -> ZdaSays(st) [] k = GSA -> GsaSays(st, part) [] k = GST -> GstSays(st) [] k = GSV -> GsvSays(st, part) [] k = PUBX -> PubxSays(st, held)
    [] k = THS -> ThsSays(st)
PartCount(st, k) == CASE k = GSA -> GsaParts(st) [] k = GSV -> GsvParts(st) [] OTHER -> 1
=============================================================================
