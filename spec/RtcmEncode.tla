----------------------------- MODULE RtcmEncode -----------------------------
(***************************************************************************)
(* What an encoded message must carry, given the message's contents f (the *)
(* same field order as decoding; finer than the wire can express).         *)
(***************************************************************************)
EXTENDS RtcmSsr, Explain

(* the largest 0 <= k < 32768 with k * unit <= a (64-bit, not negative) *)
RECURSIVE Quot(_, _, _, _)
Quot(a, unit, k, bit) ==
  IF bit < 0 THEN k
  ELSE LET k2 == k + Pow2(bit) IN Quot(a, unit, IF LeL(MulK(unit, k2), a) THEN k2 ELSE k, bit - 1)
Quotient(a, unit) == Quot(a, unit, 0, 14)

(* 1500 wavelengths in 2^-21 mm (a 65536th of 1/32 mm) *)
RollGps == << <<19289, 24592, 139, 0>>, <<16016, 56682, 178, 0>> >>
RollGlo == <<
  << <<55186, 26245, 137, 0>>,
     <<27011, 23077, 137, 0>>,
     <<13839, 19911, 137, 0>>,
     <<15516, 16747, 137, 0>>,
     <<31889, 13585, 137, 0>>,
     <<62803, 10425, 137, 0>>,
     <<42570, 7268, 137, 0>>,
     <<36573, 4113, 137, 0>>,
     <<44657, 960, 137, 0>>,
     <<1134, 63346, 136, 0>>,
     <<36925, 60197, 136, 0>>,
     <<20804, 57051, 136, 0>>,
     <<18155, 53907, 136, 0>>,
     <<28826, 50765, 136, 0>>,
     <<52666, 47625, 136, 0>>,
     <<23987, 44488, 136, 0>>,
     <<8174, 41353, 136, 0>>,
     <<5075, 38220, 136, 0>>,
     <<14541, 35089, 136, 0>>,
     <<36419, 31960, 136, 0>>,
     <<5024, 28834, 136, 0>> >>,
  << <<61591, 43106, 176, 0>>,
     <<16004, 39033, 176, 0>>,
     <<27155, 34962, 176, 0>>,
     <<29311, 30894, 176, 0>>,
     <<22275, 26829, 176, 0>>,
     <<5849, 22767, 176, 0>>,
     <<45371, 18707, 176, 0>>,
     <<9573, 14651, 176, 0>>,
     <<29329, 10597, 176, 0>>,
     <<38908, 6546, 176, 0>>,
     <<38112, 2498, 176, 0>>,
     <<26748, 63989, 175, 0>>,
     <<4617, 59947, 175, 0>>,
     <<37062, 55907, 175, 0>>,
     <<58351, 51870, 175, 0>>,
     <<2754, 47837, 175, 0>>,
     <<1147, 43806, 175, 0>>,
     <<53337, 39777, 175, 0>>,
     <<28057, 35752, 175, 0>>,
     <<56187, 31729, 175, 0>>,
     <<6460, 27710, 175, 0>> >> >>
Roll(t, fcn, k) == IF IsGlo(t) THEN RollGlo[k][fcn + 1] ELSE RollGps[k]

Bit(v, k) == (v[1] \div Pow2(k)) % 2 = 1
MinN(a, b) == IF a < b THEN a ELSE b
LockFloor7(v) == CHOOSE i \in 0..127 : Lock7(i) <= v /\ (i = 127 \/ Lock7(i + 1) > v)
LockFloor4(v) == CHOOSE i \in 0..15 : Lock4(i) <= v /\ (i = 15 \/ Lock4(i + 1) > v)

---------------------------------------------------------------------------
(* legacy observations *)
Stride(t) == 2 + 6 * (IF Dual(t) THEN 2 ELSE 1)
SatOf(t, f, i) == SubSeq(f, 8 + (i - 1) * Stride(t), 7 + i * Stride(t))
Sig(sat, k) == SubSeq(sat, 3 + 6 * (k - 1), 2 + 6 * k)      \* code, flags, range, phase, lock, CNR
Keeps(t, sat) ==
  /\ Bit(Sig(sat, 1)[2], 0) /\ Bit(Sig(sat, 1)[2], 1)
  /\ t = 1003 => Bit(Sig(sat, 2)[2], 0) /\ Bit(Sig(sat, 2)[2], 1)
Kept(t, f) == LET all == SelectSeq([i \in 1..ToInt(f[5]) |-> i], LAMBDA i : Keeps(t, SatOf(t, f, i)))
              IN SubSeq(all, 1, MinN(31, Len(all)))
\* whole ambiguity units the message has no room for, in mm
LostRange(t, sat) == IF Ext(t) THEN ZeroL ELSE AmbMm(t, Quotient(Sig(sat, 1)[3], AmbMm(t, 1)))
PhaseRel(t, fcn, k, given, sent, p1) ==
  LET diff == AbsL(SubL(given, sent))            \* 1/32 mm; a multiple of 1500 cycles, within half a step
      scaled == ShlL(AddL(diff, L(9)), 16)
      r == Roll(t, fcn, k)
      n == Quotient(scaled, r)
      span == AbsL(SubL(given, To32(p1)))        \* phase less range: 20 bits of 16 units
  IN /\ LeL(SubL(scaled, MulK(r, n)), ShlL(L(18), 16))
     /\ n > 0 => LeL(L(16 * 524286), span)
SigRel(t, i, k, sat, got) ==
  LET x == Sig(sat, k) y == Sig(got, k)
      p1 == Sig(got, 1)[3]
      given == SubL(x[3], LostRange(t, sat))
      apart == AbsL(SubL(given, p1))
  IN
  /\ Same(<<"code", t, i, k>>, L(x[1][1] % (IF k = 1 THEN 2 ELSE 4)), y[1])
  /\ IF k = 1 THEN Holds(<<"range of satellite", t, i, given, p1>>, Bit(y[2], 0) /\ NearL(given, p1, 11))
     ELSE /\ Holds(<<"second range must be valid", t, i>>, Bit(x[2], 0) /\ LeL(apart, L(8190 * 20)) => Bit(y[2], 0))
          /\ Holds(<<"second range must be invalid", t, i>>, ~Bit(x[2], 0) \/ LtL(L(8192 * 20 + 15), apart) => ~Bit(y[2], 0))
          /\ Holds(<<"second range", t, i, given, y[3]>>, Bit(y[2], 0) => NearL(given, y[3], 11))
  /\ Same(<<"phase validity", t, i, k>>, Bit(x[2], 1), Bit(y[2], 1))
  /\ Holds(<<"phase", t, i, k, x[4], y[4]>>,
           Bit(x[2], 1) => PhaseRel(t, ToInt(sat[2]), k, SubL(x[4], To32(LostRange(t, sat))), y[4], p1))
  /\ Holds(<<"lock time", t, i, k, x[5], y[5]>>,
           Bit(y[2], 1) => y[5] = L(IF Bit(x[2], 3) THEN Lock7(LockFloor7(ToInt(x[5]))) ELSE 0))
  /\ Ext(t) => LET c == IF Bit(x[2], 2) THEN x[6] ELSE ZeroL IN
                 /\ Same(<<"CNR", t, i, k>>, c, y[6])
                 /\ Same(<<"CNR validity", t, i, k>>, c # ZeroL, Bit(y[2], 2))
ObsRel(t, f, d) ==
  LET kept == Kept(t, f) IN
  /\ Same(<<"satellites", t>>, L(Len(kept)), d[5])
  /\ \A i \in {1, 2, 3, 4, 6, 7} : Same(<<"header", t, i>>, f[i], d[i])
  /\ \A i \in 1..Len(kept) :
       LET sat == SatOf(t, f, kept[i]) got == SatOf(t, d, i) IN
       /\ Same(<<"satellite", t, i>>, sat[1], got[1])
       /\ Same(<<"channel", t, i>>, sat[2], got[2])
       /\ \A k \in 1..(IF Dual(t) THEN 2 ELSE 1) : SigRel(t, i, k, sat, got)

---------------------------------------------------------------------------
(* MSM 4 and 5 *)
DayMs == <<86400000 % 65536, 86400000 \div 65536, 0, 0>>
CountBits(v) == FoldLeft(LAMBDA a, k : a + BitCount(v[k], 16), 0, <<1, 2, 3, 4>>)
(* 255 ms and -8192 m/s: no range and no rate *)
Rough255 == ShlL(L(255), 31)
MaxRough == SubL(Rough255, L(1048576))
MsmRel(b, t, f, d) ==
  LET ns == CountBits(f[11]) ng == CountBits(f[12]) nc == CountBits(f[13])
      glo == MsmCons(t) = "GLO"
      days == IF glo THEN Quotient(f[3], DayMs) ELSE 0
      cells == [k \in 1..nc |-> SubSeq(f, 14 + 3 * ns + 7 * (k - 1), 13 + 3 * ns + 7 * k)]
      got == [k \in 1..nc |-> SubSeq(d, 14 + 3 * ns + 7 * (k - 1), 13 + 3 * ns + 7 * k)]
      satof == CellSat(b, MsmLayout(b, t))
      five == t % 10 = 5
  IN
  /\ \A i \in (1..13) \ {3} : Same(<<"header", t, i>>, f[i], d[i])
  /\ Same(<<"time", t>>, SubL(f[3], MulK(DayMs, days)), d[3])
  /\ glo => Same(<<"day of week", t>>, days, GetU(b, 24, 3))
  /\ Same(<<"length", t>>, Len(f), Len(d))
  /\ \A i \in 1..ns :
       LET x == SubSeq(f, 11 + 3 * i, 13 + 3 * i) y == SubSeq(d, 11 + 3 * i, 13 + 3 * i) IN
       /\ five => Same(<<"satellite information", t, i>>, L(x[1][1] % 16), y[1])
       /\ Holds(<<"rough range", t, i, x[2], y[2]>>, IF LtL(MaxRough, x[2]) THEN y[2] = Rough255 ELSE NearL(x[2], y[2], 1048577))
       /\ five => Same(<<"rough rate", t, i>>, IF LtL(L(8191), AbsL(x[3])) THEN L(-8192) ELSE x[3], y[3])
  /\ \A k \in 1..nc :
       LET x == cells[k] y == got[k]
           rough == d[15 + 3 * satof[k]]
           rate == d[16 + 3 * satof[k]]
           dp == AbsL(SubL(x[2], rough))
           dc == AbsL(SubL(x[3], rough))
           cn == LET q == (ToInt(x[6]) + 8) \div 16 IN IF ~Bit(x[1], 2) THEN 0 ELSE MinN(q, 63)
           dr == AbsL(SubL(x[7], MulK(AbsL(rate), 10000)))
           drs == AbsL(SubL(x[7], IF NegativeL(rate) THEN Neg(MulK(AbsL(rate), 10000)) ELSE MulK(rate, 10000)))
       IN
       /\ Holds(<<"range must be valid", t, k>>, Bit(x[1], 0) /\ rough # Rough255 /\ LeL(dp, L(16383 * 128)) => Bit(y[1], 0))
       /\ Holds(<<"range must be invalid", t, k>>, ~Bit(x[1], 0) \/ rough = Rough255 \/ LtL(L(2097152), dp) => ~Bit(y[1], 0))
       /\ Holds(<<"range", t, k, x[2], y[2]>>, Bit(y[1], 0) => NearL(x[2], y[2], 65))
       /\ Holds(<<"phase must be valid", t, k>>, Bit(x[1], 1) /\ rough # Rough255 /\ LeL(dc, L(2097151 * 4)) => Bit(y[1], 1))
       /\ Holds(<<"phase must be invalid", t, k>>, ~Bit(x[1], 1) \/ rough = Rough255 \/ LtL(L(8388608), dc) => ~Bit(y[1], 1))
       /\ Holds(<<"phase", t, k, x[3], y[3]>>, Bit(y[1], 1) => NearL(x[3], y[3], 3))
       /\ Same(<<"lock time", t, k>>, L(IF Bit(x[1], 3) THEN Lock4(LockFloor4(ToInt(x[4]))) ELSE 0), y[4])
       /\ Same(<<"half cycle", t, k>>, x[5], y[5])
       /\ Same(<<"CNR", t, k>>, L(16 * cn), y[6])
       /\ Same(<<"CNR validity", t, k>>, cn > 0, Bit(y[1], 2))
       /\ IF ~five THEN Same(<<"no rate", t, k>>, FALSE, Bit(y[1], 4))
          ELSE /\ Holds(<<"rate must be valid", t, k>>, Bit(x[1], 4) /\ rate # L(-8192) /\ LeL(drs, L(16382)) => Bit(y[1], 4))
               /\ Holds(<<"rate must be invalid", t, k>>, ~Bit(x[1], 4) \/ rate = L(-8192) \/ LtL(L(16384), drs) => ~Bit(y[1], 4))
               /\ Holds(<<"rate", t, k, x[7], y[7]>>, Bit(y[1], 4) => NearL(x[7], y[7], 1))

---------------------------------------------------------------------------
Clamp(v, lo, hi) == IF LtL(v, lo) THEN lo ELSE IF LtL(hi, v) THEN hi ELSE v
Expected(t, f) ==
  CASE t = 1006 -> [f EXCEPT ![12] = Clamp(f[12], ZeroL, L(65535))]
    [] t = 1230 -> [i \in 1..7 |-> IF i < 4 \/ Bit(f[3], 7 - i) THEN f[i] ELSE ZeroL]
    [] OTHER -> f
EncRel(b, t, f) ==
  LET d == Decode(b, t) IN
  /\ Holds(<<"not decodable", t>>, d.ok)
  /\ Holds(<<"longer than needed", t>>, ~Decode(SubSeq(b, 1, Len(b) - 1), t).ok \/ t \in {1020, 1045, 1046})
  /\ t \in {1020, 1045, 1046} => Same(<<"length", t>>, (EphWire(t) + 7) \div 8, Len(b))
  /\ IF t \in {1001, 1002, 1003, 1004, 1010, 1012} THEN ObsRel(t, f, d.f)
     ELSE IF t \in 1070..1139 THEN MsmRel(b, t, f, d.f)
     ELSE LET e == Expected(t, f) IN
       /\ Same(<<"number of fields", t>>, Len(e), Len(d.f))
       /\ \A i \in 1..Len(e) : Same(<<"field", t, i>>, e[i], d.f[i])
=============================================================================
