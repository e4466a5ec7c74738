---------------------------- MODULE MC_NovFraming ----------------------------
(* Every stream of at most MaxLen bytes over a three-letter alphabet, cut    *)
(* into pieces in every way, through a miniature of the NovAtel protocol.    *)
EXTENDS Framing
CONSTANTS MaxLen, Alphabet

RECURSIVE SumMod(_, _, _)
SumMod(s, i, n) == IF n = 0 THEN 0 ELSE s[i] + SumMod(s, i + 1, n - 1)
ToyCrcOk(s, i, n) == SumMod(s, i, n) % 3 = s[i + n]
ToyLenLong(s, i) == s[i + 3]
ToyLenShort(s, i) == s[i + 2]

P == INSTANCE NovProto WITH PreLong <- <<2, 2>>, PreShort <- <<2, 1>>, HdrLong <- 4,
       HdrShort <- 3, LongMark <- 2, LenLong <- ToyLenLong, LenShort <- ToyLenShort,
       CrcLen <- 1, CrcOk <- ToyCrcOk, Cap <- 6
ToyClassify(s, i) == P!NovClassify(s, i)

Streams == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == \E s \in Streams : ReceiverInit(s)
ReadSome == \E n \in 1..Len(unread) : Read(n)
Next == ReadSome \/ ReadEnd \/ Deliver \/ Resync
Spec == Init /\ [][Next]_rvars
=============================================================================
