------------------------------ MODULE R2STime ------------------------------
(***************************************************************************)
(* Time in the RTCM to SBP converter.  A time is <<week, milliseconds of   *)
(* the week>>; messages carry a part of it only, and the rest comes from a *)
(* reference: the time nearest to the reference is meant.                  *)
(***************************************************************************)
EXTENDS Match
NoTime == <<>>
WeekLen == 604800000
HalfWeek == 302400000
DayLen == 86400000
(* a - b in milliseconds *)
DiffMs(a, b) == AddL(MulAll(L(a[1] - b[1]), <<30000, 20160>>), L(a[2] - b[2]))
Later(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
Within(a, b, ms) == LeL(AbsL(DiffMs(a, b)), L(ms))
(* milliseconds of the week that may lie in the one before or after *)
Norm(w, ms) == IF ms < 0 THEN <<w - 1, ms + WeekLen>> ELSE IF ms >= WeekLen THEN <<w + 1, ms - WeekLen>> ELSE <<w, ms>>
(* the week in which this time of the week is nearest to the reference *)
InNearestWeek(tow, ref) ==
  IF tow - ref[2] < -HalfWeek THEN <<ref[1] + 1, tow>>
  ELSE IF tow - ref[2] > HalfWeek THEN <<ref[1] - 1, tow>>
  ELSE <<ref[1], tow>>
(* Beidou time is 14 s behind GPS time *)
FromBds(tow) == IF tow + 14000 >= WeekLen THEN tow + 14000 - WeekLen ELSE tow + 14000
(* GLONASS: time of the Moscow day, three hours ahead of UTC, leap seconds behind GPS *)
FromGlo(tod, leap, ref) ==
  LET c == (ref[2] \div DayLen) * DayLen + tod - 10800000 + leap * 1000
      d == c - ref[2]
  IN Norm(ref[1], IF d > DayLen \div 2 THEN c - DayLen ELSE IF d < -(DayLen \div 2) THEN c + DayLen ELSE c)
GloDayOk(tod) == tod < DayLen + 1000
LeapAt(t) == IF t[1] >= 1930 THEN 18 ELSE 17
(* a week number modulo m, no earlier than the reference week 1876 *)
RECURSIVE WeekCycle(_)
WeekCycle(w) == IF w >= 1876 THEN w ELSE WeekCycle(w + 1024)
=============================================================================
