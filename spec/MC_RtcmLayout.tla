---------------------------- MODULE MC_RtcmLayout ----------------------------
(* Facts about the tables themselves: sizes the standard gives, and that the  *)
(* lock time tables increase and are continuous.                              *)
EXTENDS RtcmCodec
VARIABLE i
Init == i = 0
Pick == i < 1023 /\ i' = i + 1
Spec == Init /\ [][Pick]_i
Sizes == /\ ObsSatBits(1001) = 58 /\ ObsSatBits(1002) = 74 /\ ObsSatBits(1003) = 101 /\ ObsSatBits(1004) = 125
         /\ ObsSatBits(1010) = 79 /\ ObsSatBits(1012) = 130
         /\ ObsHdrBits(1001) = 64 /\ ObsHdrBits(1012) = 61
         /\ 12 + Width(F1005) = 152 /\ 12 + Width(F1006) = 168
Increasing == /\ i \in 1..127 => Lock7(i) > Lock7(i - 1)
              /\ i \in 1..15 => Lock4(i) > Lock4(i - 1)
              /\ i \in 1..704 => Lock10(i) > Lock10(i - 1)
              /\ i > 704 => Lock10(i) = Lock10(704)
=============================================================================
