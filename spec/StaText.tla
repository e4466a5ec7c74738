------------------------------ MODULE StaText ------------------------------
(***************************************************************************)
(* Proprietary messages of ST receivers (RTCM number 999): the firmware    *)
(* version (subtype 25) is a length and as many characters; the            *)
(* configuration (subtype 2) has, from bit 58, four words of four          *)
(* characters, the last one of each word first, ended by a NUL.            *)
(***************************************************************************)
EXTENDS Bits
Number(b) == GetU(b, 0, 12)
Subtype(b) == GetU(b, 12, 8)
UpToNul(s) == LET z == {i \in 1..Len(s) : s[i] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Shorter(a, b) == IF a < b THEN a ELSE b
(* text of at most room bytes, which also hold the NUL at its end *)
Version(b, room) ==
  LET n == Shorter(GetU(b, 20, 8), room - 1) IN UpToNul([i \in 1..n |-> GetU(b, 20 + 8 * i, 8)])
Config(b) ==
  UpToNul([i \in 1..15 |-> LET w == (i - 1) \div 4 c == (i - 1) % 4 IN GetU(b, 58 + 32 * w + 24 - 8 * c, 8)])
=============================================================================
