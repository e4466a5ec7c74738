------------------------------- MODULE UbxNav -------------------------------
(***************************************************************************)
(* Collecting navigation message pieces until an ephemeris is complete.    *)
(* The navigation message decoders themselves belong to libswiftnav: here  *)
(* they are a stand-in that returns a fixed ephemeris, so what is given to *)
(* them (Nav.. messages) and what is made of their answer are described.   *)
(***************************************************************************)
EXTENDS Limbs, Match
(* bits lo..lo+n-1 of a 32-bit word *)
WBits(w, lo, n) ==
  IF lo >= 16 THEN (w[2] \div Pow2(lo - 16)) % Pow2(n)
  ELSE IF lo + n <= 16 THEN (w[1] \div Pow2(lo)) % Pow2(n)
  ELSE (w[1] \div Pow2(lo)) + (w[2] % Pow2(n - (16 - lo))) * Pow2(16 - lo)
WordLE(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>
WordBE(w) == <<w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>
NoNav(st) == [st |-> st, outs |-> <<>>]
(* the decoder's answer can be scripted to be "not valid" *)
FailsNow(st) == (st.decoded + 1) \in st.fails
NoPieces == [p \in 1..5 |-> [have |-> FALSE, w |-> <<>>]]
Pieces(st, key) == IF key \in DOMAIN st.eph THEN st.eph[key] ELSE NoPieces
Put(st, key, ps) == [st EXCEPT !.eph = (key :> ps) @@ @]
Drop(ps, S) == [p \in 1..5 |-> IF p \in S THEN [ps[p] EXCEPT !.have = FALSE] ELSE ps[p]]
HaveAll(ps, S) == \A p \in S : ps[p].have
Bytes(b) == [i \in 1..Len(b) |-> XI(b[i])]
XS(ns) == [i \in 1..Len(ns) |-> XI(ns[i])]
Common(sat, code, toe, wn, fit, valid) == XS(<<sat, code, toe, wn, 2000, fit, valid, 3>>)
Kepler(toc, wn) == XS(<<2, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, toc, wn, 20, 19>>)

(* GPS LNAV: subframes 1..3 of one issue of data *)
GpsSubframe(st, s, sat, ws) ==
  IF sat \notin 1..32 \/ Len(ws) # 10 \/ WBits(ws[1], 22, 8) # 139 \/ WBits(ws[2], 8, 3) \notin 1..3 THEN NoNav(st)
  ELSE LET k == WBits(ws[2], 8, 3)
           key == <<0, sat>>
           ps == [Pieces(st, key) EXCEPT ![k] = [have |-> TRUE, w |-> ws]]
           iodc == WBits(ps[1].w[8], 22, 8)
           iode2 == WBits(ps[2].w[3], 22, 8)
           iode3 == WBits(ps[3].w[10], 22, 8)
           how == WBits(ps[1].w[2], 13, 17)
           tot == IF how = 0 THEN 604794 ELSE (how - 1) * 6
           nav == Msg("Navgps", <<>>, XS(<<sat, 0, tot>>) \o
                      Bytes(FlattenSeq([i \in 1..3 |-> FlattenSeq([j \in 1..8 |-> WordLE(ps[i].w[j + 2])])])))
           eph == Msg("EphGps", s, Common(sat, 0, 302400, 2100, 14400, 1) \o XS(<<101>>) \o Kepler(302416, 2101))
           cleared == Put(st, key, Drop(ps, 1..3))
       IN IF ~HaveAll(ps, 1..3) THEN NoNav(Put(st, key, ps))
          ELSE IF iodc # iode2 \/ iode2 # iode3 THEN NoNav(Put(st, key, Drop(ps, (1..3) \ {k})))
          ELSE IF how >= 100800 THEN NoNav(Put(st, key, Drop(ps, {1})))
          ELSE [st |-> [cleared EXCEPT !.decoded = @ + 1],
                outs |-> IF FailsNow(st) THEN <<nav>> ELSE <<nav, eph>>]

(* BeiDou D1: subframes 1..3, six seconds apart *)
BdsGeo == (1..5) \cup (60..63)
BdsSubframe(st, s, sat, ws) ==
  IF sat \notin 1..64 \/ Len(ws) # 10 \/ sat \in BdsGeo \/ WBits(ws[1], 12, 3) \notin 1..3 THEN NoNav(st)
  ELSE LET k == WBits(ws[1], 12, 3)
           key == <<3, sat>>
           ps == [Pieces(st, key) EXCEPT ![k] = [have |-> TRUE, w |-> ws]]
           sow(i) == WBits(ps[i].w[1], 4, 8) * 4096 + WBits(ps[i].w[2], 18, 12)
           wrong == {i \in 1..3 : sow(i) >= 604800}
           first == CHOOSE i \in wrong : \A j \in wrong : i <= j
           nav == Msg("Navbds", <<>>, XS(<<sat, 12, 0>>) \o
                      Bytes(FlattenSeq([i \in 1..3 |-> FlattenSeq([j \in 1..10 |-> WordLE(ps[i].w[j])])])))
           eph == Msg("EphBds", s, Common(sat, 12, 302414, 2100, 10800, 1) \o XS(<<101, 102>>) \o Kepler(302430, 2101))
       IN IF ~HaveAll(ps, 1..3) THEN NoNav(Put(st, key, ps))
          ELSE IF wrong # {} THEN NoNav(Put(st, key, Drop(ps, {first})))
          ELSE IF sow(2) # sow(1) + 6 \/ sow(3) # sow(2) + 6 THEN NoNav(Put(st, key, ps))
          ELSE [st |-> [Put(st, key, Drop(ps, 1..3)) EXCEPT !.decoded = @ + 1], outs |-> <<nav, eph>>]

(* Galileo I/NAV: word types 1..5, the first four of one issue of data *)
GalIod(ws) == WBits(ws[1], 14, 10)
GalBytes(ws) ==
  LET b == FlattenSeq([j \in 1..4 |-> WordBE(ws[j])]) odd == WBits(ws[5], 14, 16) IN
  [i \in 1..14 |-> GetU(b, 8 * (i - 1) + 2, 8)] \o <<odd \div 256, odd % 256>>
GalPage(st, s, sat, ws) ==
  IF sat \notin 1..36 \/ Len(ws) <= 8 \/ WBits(ws[1], 30, 2) # 0 \/ WBits(ws[5], 31, 1) # 1
     \/ WBits(ws[1], 24, 6) \notin 1..5 THEN NoNav(st)
  ELSE LET k == WBits(ws[1], 24, 6)
           key == <<2, sat>>
           ps0 == [Pieces(st, key) EXCEPT ![k] = [have |-> TRUE, w |-> ws]]
           other == {i \in 1..4 : ps0[i].w # <<>> /\ GalIod(ps0[i].w) # GalIod(ws)}
           ps == IF k = 5 THEN ps0 ELSE Drop(ps0, other)
           pages == [i \in 1..5 |-> GalBytes(ps[i].w)]
           sid == GetU(pages[4], 16, 6)
           nav == Msg("Navgal", <<>>, XS(<<sid, 14, 0>>) \o Bytes(FlattenSeq(pages)))
           eph == Msg("EphGal", s, Common(sid, 14, 302400, 2100, 14400, 1) \o XS(<<101, 102>>) \o Kepler(302416, 2101) \o XS(<<0>>))
       IN IF ~HaveAll(ps, 1..5) THEN NoNav(Put(st, key, ps))
          ELSE IF FailsNow(st) THEN [st |-> [Put(st, key, ps) EXCEPT !.decoded = @ + 1], outs |-> <<nav>>]
          ELSE [st |-> [Put(st, key, Drop(ps, 1..5)) EXCEPT !.decoded = @ + 1], outs |-> <<nav, eph>>]

(* GLONASS: strings 1..5 of one superframe; needs the leap seconds *)
GloBytes(ws) == \* bit n of the little-endian number is bit 84-n of the string as received
  LET b == FlattenSeq([j \in 1..4 |-> WordBE(ws[j])])
      bit(n) == IF n > 84 THEN 0 ELSE GetU(b, 84 - n, 1)
  IN [j \in 1..12 |-> FoldLeft(LAMBDA a, i : a + bit(8 * (j - 1) + i) * Pow2(i), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
GloString(st, s, sat, freq, ws) ==
  IF sat \notin 1..28 \/ Len(ws) # 4 \/ WBits(ws[1], 31, 1) = 1 \/ WBits(ws[1], 27, 4) \notin 1..5 THEN NoNav(st)
  ELSE LET k == WBits(ws[1], 27, 4)
           key == <<6, sat>>
           frame == WBits(ws[4], 16, 16)
           old == Pieces(st, key)
           stale == {p \in 1..5 : old[p].have /\ WBits(old[p].w[4], 16, 16) # frame}
           ps == [Drop(old, IF stale # {} THEN 1..5 ELSE {}) EXCEPT ![k] = [have |-> TRUE, w |-> ws]]
           str(i) == LET g == GloBytes(ps[i].w) IN
                     Bytes(SubSeq(g, 1, 10)) \o <<LowPart(g[11], 32), Anything>>
           nav == Msg("Navglo", <<>>, <<XI(sat), XI(3), X(st.leap)>> \o FlattenSeq([i \in 1..5 |-> str(i)]))
           eph == Msg("EphGlo", s, Common(sat, 3, 302400, 2100, 2400, IF FailsNow(st) THEN 0 ELSE 1) \o
                      XS(<<21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, (freq + 1) % 256>>))
       IN IF ~HaveAll(ps, 1..5) \/ ~st.leapKnown THEN NoNav(Put(st, key, ps))
          ELSE [st |-> [Put(st, key, Drop(ps, 1..5)) EXCEPT !.decoded = @ + 1], outs |-> <<nav, eph>>]

(* SBAS: every message whose parity is right is forwarded with its time *)
SbasWeek == L(604800000)
SbasMessage(st, s, sat, ws) ==
  IF st.tow = <<>> THEN NoNav(st)
  ELSE IF LtU(SbasWeek, st.tow) \/ sat \notin 120..158 \/ Len(ws) \notin {8, 9} THEN NoNav(st)
  ELSE LET b == FlattenSeq([j \in 1..8 |-> WordBE(ws[j])])
           covered == [j \in 1..29 |-> IF j = 1 THEN GetU(b, 0, 2) ELSE GetU(b, 8 * (j - 1) - 6, 8)]
           tow == IF LtU(st.tow, L(1120)) THEN AddL(st.tow, L(604800000 - 1120)) ELSE SubL(st.tow, L(1120))
       IN IF b[1] \notin {83, 154, 198} \/ Crc24(covered) # GetU(b, 226, 24) THEN NoNav(st)
          ELSE [st |-> st,
                outs |-> <<Msg("SbasRaw", s, <<XI(sat), XI(2), X(tow), XI(GetU(b, 8, 6))>> \o
                                [i \in 1..27 |-> XI(IF i = 27 THEN 16 * GetU(b, 222, 4) ELSE GetU(b, 14 + 8 * (i - 1), 8))])>>]
=============================================================================
