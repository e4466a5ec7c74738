----------------------------- MODULE IxcomToSbp -----------------------------
(***************************************************************************)
(* iXCOM messages: their layout, and the SBP messages they give.           *)
(***************************************************************************)
EXTENDS Floats, Match
IMURAW == 0
WHEELDATA == 22
SizeOf(id) == CASE id = IMURAW -> 44 [] id = WHEELDATA -> 28
U4(b, o) == LE32(b, o) \o <<0, 0>>
S4(b, o) == LET v == U4(b, o) IN IF v[2] >= 32768 THEN <<v[1], v[2], 65535, 65535>> ELSE v
XcomSec(b) == U4(b, 8)
XcomUsec(b) == U4(b, 12)
(* a known message of the right length whose checksum is right *)
Valid(b) == /\ Byte(b, 0) = 126
            /\ Byte(b, 1) \in {IMURAW, WHEELDATA}
            /\ LE16(b, 4) = SizeOf(Byte(b, 1)) /\ Len(b) >= LE16(b, 4)
            /\ Crc16(SubSeq(b, 1, LE16(b, 4) - 2)) = LE16(b, LE16(b, 4) - 2)
(* its fields: header, payload, footer *)
Header(b) == <<L(Byte(b, 0)), L(Byte(b, 1)), L(Byte(b, 2)), L(Byte(b, 3)), L(LE16(b, 4)), L(LE16(b, 6)), U4(b, 8), U4(b, 12)>>
Decoded(b) ==
  Header(b) \o (IF Byte(b, 1) = IMURAW THEN [i \in 1..6 |-> U4(b, 16 + 4 * (i - 1))] \o <<L(LE16(b, 40)), L(LE16(b, 42))>>
                ELSE <<U4(b, 16), S4(b, 20), L(LE16(b, 24)), L(LE16(b, 26))>>)

TowMs(b) == LET t == AddL(MulK(XcomSec(b), 1000), DivK(XcomUsec(b), 1000)) IN <<t[1], t[2], 0, 0>>
S16(v) == CASE v > 32767 -> 32767 [] v < -32768 -> -32768 [] OTHER -> v
Top == L(32767)  Bot == L(-32768)
Sat(x, v, ms, tol) == \* v / ms rounded and clamped; single precision values of 64 and more are far out of range
  IF F32Exp(x) >= 133 THEN XI(IF x[2] >= 32768 THEN -32768 ELSE 32767)
  ELSE IF LeL(MulAll(Top, ms), v) THEN X(Top) ELSE IF LeL(v, MulAll(Bot, ms)) THEN X(Bot) ELSE Near(ms, v, tol)
Accel(x) == Sat(x, MulK(F32Scaled(x, 20).v, 10000), <<448, 28019>>, 6376256)
Rate(x) == Sat(x, MulK(F32Scaled(x, 30).v, 4068), <<8875, 16384, 2>>, 148000000)
ImuAux(s) == Msg("ImuAux", s, <<XI(255), XI(0), XI(65)>>)
Velocity(x) == LET v == MulK(F32Scaled(x, 20).v, 1000) IN NearT(<<16384, 64>>, v, AddL(L(1048576 + 2000), ShrL(AbsL(v), 23)))
XcomInitial == [sent |-> 0]
XcomHandle(st, s, b) ==
  IF ~Valid(b) THEN [st |-> st, outs |-> <<>>]
  ELSE IF Byte(b, 1) = IMURAW
  THEN LET t == TowMs(b)
           f == (ModK(XcomUsec(b), 1000) * 256) \div 1000
           raw == Msg("ImuRaw", s, <<XI(t[2] \div 16384), X(AddL(MulK(<<t[1], t[2] % 16384, 0, 0>>, 256), L(f)))>> \o
                      [i \in 1..3 |-> Accel(U4(b, 16 + 4 * (i - 1)))] \o [i \in 1..3 |-> Rate(U4(b, 28 + 4 * (i - 1)))])
       IN [st |-> [sent |-> (st.sent + 1) % 100],
           outs |-> <<raw>> \o (IF st.sent = 0 THEN <<ImuAux(s)>> ELSE <<>>)]
  ELSE [st |-> st,
        outs |-> <<Msg("Odometry", s, <<X(TowMs(b)), Velocity(U4(b, 16)), XI(1)>>),
                   Msg("Wheeltick", s, <<X(AddL(MulAll(XcomSec(b), <<1000, 1000>>), XcomUsec(b))), XI(1), XI(0), X(S4(b, 20))>>)>>]
=============================================================================
