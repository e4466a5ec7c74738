----------------------------- MODULE SbpToRtcm -----------------------------
(***************************************************************************)
(* The SBP to RTCM converter: what it keeps between messages, which RTCM   *)
(* messages an SBP message makes it send, and what those must say.  An     *)
(* expected message is <<kind, ...>>; Says relates it to the body sent.    *)
(***************************************************************************)
EXTENDS RtcmEncode, R2SEph
O == INSTANCE R2SObs

---------------------------------------------------------------------------
(* SBP message types *)
TBasePos == 72  TBias == 117  TObs == 74  TOsr == 1600  TGps == 138  TBds == 137  TGal == 141  TGlo == 139  TLog == 1025
TSsr == {1501, 1505, 1510, 1530, 1525, 1515}

(* little endian fields as limbs *)
U8(b, o) == Byte(b, o)
F64(b, o) == LE64(b, o)
F32(b, o) == LE32(b, o)
F32L(b, o) == LE32(b, o) \o <<0, 0>>
SLE32(b, o) == LET v == LE32(b, o) IN IF v[2] >= 32768 THEN <<v[1], v[2], 65535, 65535>> ELSE <<v[1], v[2], 0, 0>>

---------------------------------------------------------------------------
NoLeap == -1000
NoSender == -1
Unknown == 255
Start == [leap |-> NoLeap, legacy |-> FALSE, five |-> TRUE, fcn |-> [s \in 1..28 |-> Unknown], ant |-> FALSE, height |-> 0,
          antd |-> <<>>, rcvd |-> <<>>, sender |-> NoSender, buf |-> <<>>, at |-> <<0, 0>>, size |-> 0, cnt |-> 0]
(* the settings of the library call sbp_conv and of the tool sbp2rtcm *)
Text20 == <<78, 85, 76, 76>> \o [i \in 1..16 |-> 32]
StartConv == [Start EXCEPT !.leap = 18, !.ant = TRUE, !.antd = Text20, !.rcvd = <<83, 87, 70, 84>>]
StartMain == [Start EXCEPT !.leap = 18]
SetFcn(st, sat, fcn) ==
  IF sat \notin 1..28 THEN st ELSE [st EXCEPT !.fcn[sat] = IF fcn \in 1..14 THEN fcn - 1 ELSE Unknown]
HeightOk(h) == h >= 0 /\ h <= 655350               \* hundredths of a millimetre
SetHeight(st, h) == IF HeightOk(h) THEN [st EXCEPT !.height = h, !.ant = TRUE] ELSE st
Text31(s) == SubSeq(s, 1, MinN(31, Len(s)))
SetTexts(st, a, r) == [st EXCEPT !.antd = Text31(a), !.rcvd = Text31(r), !.ant = TRUE]
(* 4 and 5 are the MSM modes, anything else asks for 1004 and 1012 *)
SetMode(st, m) == IF m \in {4, 5} THEN [st EXCEPT !.legacy = FALSE, !.five = (m = 5)] ELSE [st EXCEPT !.legacy = TRUE]
Stn(sender) == sender % 4096

---------------------------------------------------------------------------
(* observations *)
HdrLen == 11
ObLen == 17
ObAt(b, o) == [P |-> LE32(b, o) \o <<0, 0>>, Li |-> SLE32(b, o + 4), L |-> AddL(ShlL(SLE32(b, o + 4), 8), L(U8(b, o + 8))),
               D |-> 256 * SLE16(b, o + 9) + U8(b, o + 11), cn0 |-> U8(b, o + 12), lock |-> U8(b, o + 13) % 16,
               flags |-> U8(b, o + 14), sat |-> U8(b, o + 15), code |-> U8(b, o + 16)]
Flag(o, k) == (o.flags \div Pow2(k)) % 2 = 1
CodeFlag == 0  PhaseFlag == 1  HalfFlag == 2  DopFlag == 3  RaimFlag == 7
MaxObs == 210
ObsIn(b) == [i \in 1..((Len(b) - HdrLen) \div ObLen) |-> ObAt(b, HdrLen + ObLen * (i - 1))]
Usable(os) == SelectSeq(os, LAMBDA o : Flag(o, CodeFlag) /\ ~Flag(o, RaimFlag))
Tow(b) == LE32(b, 0) \o <<0, 0>>
(* <<week, ms>>: is a later than b *)
TimeLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(* which system a signal belongs to *)
ConsOf(c) == CASE c \in {0, 1} \cup (5..11) \cup (56..58) -> "GPS" [] c \in {2} \cup (41..43) -> "SBAS" [] c \in {3, 4, 29, 30} -> "GLO"
               [] c \in {12, 13} \cup (44..55) -> "BDS" [] c \in 31..40 -> "QZS" [] c \in 14..28 -> "GAL" [] OTHER -> "none"
SatRange(c) == CASE c = "GPS" -> 1..32 [] c = "SBAS" -> 120..158 [] c = "GLO" -> 1..28 [] c = "BDS" -> 1..64
                 [] c = "QZS" -> 193..202 [] c = "GAL" -> 1..36 [] OTHER -> {}
FirstSat(c) == CASE c = "SBAS" -> 120 [] c = "QZS" -> 193 [] OTHER -> 1
(* the signal meant by the MSM signal number i of a system *)
SigCode(c, i) ==
  CASE c = "SBAS" -> (CASE i = 2 -> 2 [] i = 22 -> 41 [] i = 23 -> 42 [] i = 24 -> 43 [] OTHER -> -1)
    [] c = "QZS" -> (CASE i = 2 -> 31 [] i \in 15..17 -> i + 20 [] i \in 22..24 -> i + 16 [] i \in 30..32 -> i + 2 [] OTHER -> -1)
    [] c = "BDS" /\ i \in 14..16 -> (CASE i = 14 -> 13 [] OTHER -> -1)
    [] OTHER -> O!MsmCode(c, i)
HasSig(c, code) == \E i \in 1..32 : SigCode(c, i) = code
Freq(code, fcn) == CASE code \in 44..46 -> 3150840 [] code \in 50..52 -> 2414280 [] code \in 53..55 -> 2537040 [] OTHER -> O!FreqOf(code, fcn)
FcnOf(st, o) == IF ConsOf(o.code) = "GLO" THEN st.fcn[o.sat] ELSE Unknown
Systems == <<"GPS", "SBAS", "GLO", "BDS", "QZS", "GAL">>
MsmBase(c) == CASE c = "GPS" -> 1070 [] c = "SBAS" -> 1100 [] c = "GLO" -> 1080 [] c = "BDS" -> 1120 [] c = "QZS" -> 1110 [] OTHER -> 1090
Sendable(st, o) ==
  LET c == ConsOf(o.code) IN
  /\ c # "none" /\ o.sat \in SatRange(c) /\ HasSig(c, o.code)
  /\ c = "GLO" => st.leap # NoLeap

(* the time of the epoch in the system's own scale *)
WeekMs == 604800000
Wrap(ms) == IF ms < 0 THEN ms + WeekMs ELSE IF ms >= WeekMs THEN ms - WeekMs ELSE ms
SysTow(st, c) == CASE c = "GLO" -> Wrap(st.at[2] + 10800000 - 1000 * st.leap)
                   [] c = "BDS" -> Wrap(st.at[2] - 14000) [] OTHER -> st.at[2]
MsmOf(st) ==
  LET sel(c) == SelectSeq(st.buf, LAMBDA o : ConsOf(o.code) = c /\ Sendable(st, o))
      present == SelectSeq(Systems, LAMBDA c : sel(c) # <<>>)
  IN [k \in 1..Len(present) |->
        LET c == present[k] IN
        [k |-> "msm", t |-> MsmBase(c) + (IF st.five THEN 5 ELSE 4), stn |-> Stn(st.sender), cons |-> c, tow |-> SysTow(st, c),
         more |-> k < Len(present), fcn |-> st.fcn, obs |-> sel(c)]]

(* legacy messages: satellites in the order of their first L1 observation *)
L1Codes == [GPS |-> {0, 5}, GLO |-> {3, 29}]
L2Codes == [GPS |-> {1, 6}, GLO |-> {4, 30}]
LegacyStep(st, c, acc, o) ==
  LET at(s) == {i \in 1..Len(acc) : acc[i].sat = s} IN
  IF o.code \in L1Codes[c] THEN
    IF o.sat \notin SatRange(c) \/ Len(acc) >= 31 \/ at(o.sat) # {} \/ (c = "GLO" /\ (st.leap = NoLeap \/ st.fcn[o.sat] = Unknown)) THEN acc
    ELSE Append(acc, [sat |-> o.sat, a |-> o, b |-> <<>>])
  ELSE IF o.code \in L2Codes[c] /\ at(o.sat) # {} THEN
    [i \in 1..Len(acc) |-> IF i \in at(o.sat) THEN [acc[i] EXCEPT !.b = <<o>>] ELSE acc[i]]
  ELSE acc
LegacySats(st, c) == FoldLeft(LAMBDA a, o : LegacyStep(st, c, a, o), <<>>, st.buf)
LegacyOf(st) ==
  LET g == LegacySats(st, "GPS") r == LegacySats(st, "GLO")
      m(c, t, sats, more) == [k |-> "legacy", t |-> t, stn |-> Stn(st.sender), cons |-> c, more |-> more, sats |-> sats, fcn |-> st.fcn,
                              tow |-> IF c = "GLO" THEN SysTow(st, c) % 86400000 ELSE st.at[2]]
  IN (IF g = <<>> THEN <<>> ELSE <<m("GPS", 1004, g, r # <<>>)>>) \o (IF r = <<>> THEN <<>> ELSE <<m("GLO", 1012, r, FALSE)>>)

Outs(st, ms) == [st |-> st, outs |-> ms]
Flush(st) == Outs([st EXCEPT !.buf = <<>>], IF st.legacy THEN LegacyOf(st) ELSE MsmOf(st))
(* one observation message: number cnt of size, counted from one *)
Add(st, at, size, cnt, os) ==
  LET room == MaxObs - Len(st.buf)
      s1 == [st EXCEPT !.buf = @ \o SubSeq(os, 1, MinN(room, Len(os))), !.at = at, !.size = size, !.cnt = cnt]
  IN IF cnt = size THEN Flush(s1) ELSE Outs(s1, <<>>)
After(f, g) == Outs(g.st, f.outs \o g.outs)
InEpoch(st, at, size, cnt, os) ==
  IF st.buf = <<>> THEN Add(st, at, size, cnt, os)
  ELSE IF TimeLess(at, st.at) THEN Outs(st, <<>>)
  ELSE IF TimeLess(st.at, at) THEN LET f == Flush(st) IN After(f, Add(f.st, at, size, cnt, os))
  ELSE IF size # st.size \/ cnt <= st.cnt THEN Flush(st)
  ELSE Add(st, at, size, cnt, os)
HearObs(st, sender, at, size, cnt, os) ==
  LET f == IF st.sender = sender THEN Outs(st, <<>>) ELSE LET g == Flush(st) IN Outs([g.st EXCEPT !.sender = sender], g.outs)
  IN After(f, InEpoch(f.st, at, size, cnt, os))
Obs(st, sender, b) ==
  IF Len(b) < HdrLen \/ ~LtU(Tow(b), L(WeekMs)) THEN Outs(st, <<>>)
  ELSE HearObs(st, sender, <<LE16(b, 8), ToInt(Tow(b))>>, U8(b, 10) \div 16, (U8(b, 10) % 16) + 1, Usable(ObsIn(b)))

---------------------------------------------------------------------------
(* the other messages *)
Fixed(t, f) == [k |-> "fixed", t |-> t, f |-> f]
StrF(s) == <<L(Len(s))>> \o [i \in 1..Len(s) |-> L(s[i])]
Station(st, sender, b) ==
  <<[k |-> "station", t |-> 1006, stn |-> Stn(sender), xyz |-> <<F64(b, 0), F64(b, 8), F64(b, 16)>>, h |-> st.height]>>
  \o IF ~st.ant THEN <<>>
     ELSE <<Fixed(1008, <<L(Stn(sender))>> \o StrF(st.antd) \o <<ZeroL, ZeroL>>),
            Fixed(1033, <<L(Stn(sender))>> \o StrF(st.antd) \o <<ZeroL, ZeroL>> \o StrF(st.rcvd) \o <<ZeroL, ZeroL>>)>>
Biases(sender, b) ==
  Fixed(1230, Expected(1230, <<L(Stn(sender)), ZeroL, L(U8(b, 0) % 16)>> \o [i \in 1..4 |-> L(SLE16(b, 2 * i - 1))]))
Swift(type, sender, b) == Fixed(4062, <<L(type), L(sender), L(Len(b))>> \o [i \in 1..Len(b) |-> L(b[i])])
LogText(sender, b) ==
  Fixed(1029, <<L(Stn(sender)), ZeroL, ZeroL, ZeroL, L(Len(b) - 1)>> \o [i \in 1..(Len(b) - 1) |-> L(b[i + 1])])

(* ephemerides *)
EphCode(b) == U8(b, 1)
EphMsg(st, t, b) == [k |-> "eph", t |-> t, b |-> b, leap |-> st.leap]
Eph1(st, type, b) ==
  CASE type = TGps -> IF ConsOf(EphCode(b)) = "GPS" \/ EphCode(b) = 59 THEN <<EphMsg(st, 1019, b)>> ELSE <<>>
    [] type = TGlo -> IF ConsOf(EphCode(b)) = "GLO" THEN <<EphMsg(st, 1020, b)>> ELSE <<>>
    [] type = TBds -> IF EphCode(b) \in {12, 13, 63} \cup (44..55) THEN <<EphMsg(st, 1042, b)>> ELSE <<>>
    [] OTHER -> IF ConsOf(EphCode(b)) \notin {"GAL"} /\ EphCode(b) # 61 THEN <<>>
                ELSE CASE U8(b, 152) = 0 -> <<EphMsg(st, 1046, b)>> [] U8(b, 152) = 1 -> <<EphMsg(st, 1045, b)>> [] OTHER -> <<>>

(* one SBP message: the state after it and the RTCM messages that it makes *)
Handle(st, type, sender, b) ==
  CASE type = TObs -> Obs(st, sender, b)
    [] type = TBasePos -> Outs(st, Station(st, sender, b))
    [] type = TBias -> Outs(st, <<Biases(sender, b)>>)
    [] type = TOsr \/ type \in TSsr -> Outs(st, <<Swift(type, sender, b)>>)
    [] type \in {TGps, TGlo, TBds, TGal} -> Outs(st, Eph1(st, type, b))
    [] type = TLog -> Outs(st, IF Len(b) < 2 THEN <<>> ELSE <<LogText(sender, b)>>)
    [] OTHER -> Outs(st, <<>>)

=============================================================================
