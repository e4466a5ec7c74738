---------------------------- MODULE MC_RtcmFraming ---------------------------
(* Every stream of at most MaxLen bytes over a small alphabet, cut in every   *)
(* way, through a miniature of the RTCM 3 transport: preamble, one length     *)
(* byte, payload, one check byte.                                             *)
EXTENDS Framing
CONSTANTS MaxLen, Alphabet
RECURSIVE SumMod(_, _, _)
SumMod(s, i, n) == IF n = 0 THEN 0 ELSE s[i] + SumMod(s, i + 1, n - 1)
ToyClassify(s, i) ==
  IF Len(s) - i + 1 < 4 THEN [k |-> "wait"]
  ELSE IF s[i] # 2 \/ s[i + 1] = 0 THEN [k |-> "skip", n |-> 1]
  ELSE IF i + s[i + 1] + 2 > Len(s) THEN [k |-> "wait"]
  ELSE IF SumMod(s, i, s[i + 1] + 2) % 3 = s[i + s[i + 1] + 2] THEN [k |-> "frame", n |-> s[i + 1] + 3]
  ELSE [k |-> "skip", n |-> 1]
Streams == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == \E s \in Streams : ReceiverInit(s)
ReadSome == \E n \in 1..Len(unread) : Read(n)
Next == ReadSome \/ ReadEnd \/ Deliver \/ Resync
Spec == Init /\ [][Next]_rvars
=============================================================================
