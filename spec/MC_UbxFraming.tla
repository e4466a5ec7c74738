---------------------------- MODULE MC_UbxFraming ----------------------------
(* Every stream of at most MaxLen bytes over a three-letter alphabet, cut    *)
(* into pieces in every way, through a miniature of the UBX protocol.        *)
EXTENDS Framing
CONSTANTS MaxLen, Alphabet

RECURSIVE SumMod(_, _, _)
SumMod(s, i, n) == IF n = 0 THEN 0 ELSE s[i] + SumMod(s, i + 1, n - 1)
ToyLen(s, i) == s[i + 2]
ToySum(s, i, n) == SumMod(s, i + 2, n + 1) % 3 = s[i + 3 + n]
P == INSTANCE UbxProto WITH Sync1 <- 2, Sync2 <- 1, MaxPayload <- 1, LenAt <- ToyLen,
       HdrLen <- 3, CrcLen <- 1, SumOk <- ToySum
ToyClassify(s, i) == P!UbxClassify(s, i)

Streams == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == \E s \in Streams : ReceiverInit(s)
ReadSome == \E n \in 1..Len(unread) : Read(n)
Next == ReadSome \/ ReadEnd \/ Deliver \/ Resync
Spec == Init /\ [][Next]_rvars
=============================================================================
