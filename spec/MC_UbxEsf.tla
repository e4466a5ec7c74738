------------------------------ MODULE MC_UbxEsf ------------------------------
(* Every short history of odometer messages around the places where counters *)
(* wrap: the time and tick counts given out move as the vehicle's did.       *)
EXTENDS UbxToSbp
CONSTANTS Depth, Tags, Ticks
VARIABLES st, hist
vars == <<st, hist>>
Source == 9
Payload(tag, tick, dir) ==
  [i \in 1..8 |-> CASE i = 5 -> <<8 + 2048, 0, 0, 0>>
                    [] i = 7 -> <<tick[1], tick[2] + 256 * Source + 128 * dir, 0, 0>>
                    [] i = 8 -> tag [] OTHER -> ZeroL]
TagSet == {<<0, 0, 0, 0>>, <<900, 0, 0, 0>>, <<65000, 65535, 0, 0>>, <<33700, 9228, 0, 0>>, <<34000, 9228, 0, 0>>}
TickSet == {<<0, 0, 0, 0>>, <<7, 0, 0, 0>>, <<65535, 63, 0, 0>>}
Init == st = UbxInitial(FALSE, {}) /\ hist = <<>>
Measure == /\ Len(hist) < Depth
           /\ \E tag \in Tags, tick \in Ticks, dir \in {0, 1} :
                LET h == EsfMeas(st, ZeroL, Payload(tag, tick, dir)) IN
                /\ st' = h.st
                /\ hist' = Append(hist, [tag |-> tag, tick |-> tick, dir |-> dir, outs |-> h.outs])
Spec == Init /\ [][Measure]_vars
Sent(i) == hist[i].outs # <<>>
Us(i) == hist[i].outs[1].f[1].hi
Out(i) == hist[i].outs[1].f[4].v
(* what was sent just before i, without a gap in between *)
Consecutive(i) == i > 1 /\ Sent(i) /\ Sent(i - 1)
TimeMoves == \A i \in 2..Len(hist) : Consecutive(i) =>
  LET d == U32(SubL(hist[i].tag, hist[i - 1].tag)) IN
  /\ LeL(d, Gap)
  /\ LET e == SubL(Us(i), Us(i - 1)) IN e \in {MulK(d, 1000), SubL(MulK(d, 1000), MulK(WeekMsL, 1000))}
(* the message after a gap is dropped, the one after that starts afresh *)
GapsDrop == \A i \in 2..Len(hist) : Sent(i - 1) /\ LtU(Gap, U32(SubL(hist[i].tag, hist[i - 1].tag))) => ~Sent(i)
NeverTwoDropped == \A i \in 2..Len(hist) : ~(~Sent(i) /\ ~Sent(i - 1))
FirstSent == hist # <<>> => Sent(1)
TicksMove == \A i \in 2..Len(hist) : Consecutive(i) =>
  LET d == Tick22(SubL(hist[i].tick, hist[i - 1].tick)) IN
  Out(i) = S32(IF hist[i].dir = 1 THEN SubL(Out(i - 1), d) ELSE AddL(Out(i - 1), d))
TimeInWeek == \A i \in 1..Len(hist) : Sent(i) => LtU(Us(i), MulK(WeekMsL, 1000))
=============================================================================
