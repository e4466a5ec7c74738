--------------------------- MODULE MC_IxcomFraming ---------------------------
(* Every stream of at most MaxLen bytes over a four-letter alphabet, cut into *)
(* pieces in every way, through a miniature of the iXCOM protocol.            *)
EXTENDS Framing
CONSTANTS MaxLen, Alphabet
ToyLen(s, i) == s[i + 1]
P == INSTANCE IxcomProto WITH Sync <- 1, LenAt <- ToyLen, HdrLen <- 2, FootLen <- 1, MaxLen <- 4
ToyClassify(s, i) == P!IxcomClassify(s, i)
Streams == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == \E s \in Streams : ReceiverInit(s)
ReadSome == \E n \in 1..Len(unread) : Read(n)
Next == ReadSome \/ ReadEnd \/ Deliver \/ Resync
Spec == Init /\ [][Next]_rvars
=============================================================================
