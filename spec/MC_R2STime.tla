------------------------------ MODULE MC_R2STime -----------------------------
(* For every reference and every true time near enough to it (on a grid), the *)
(* part of the time which a message carries gives the true time back.         *)
EXTENDS R2STime
CONSTANTS Grid, Far          \* milliseconds; how many grid steps away
VARIABLES ref, away
W0 == 2000
Init == /\ ref \in {<<W0, Grid * k>> : k \in 0..((WeekLen \div Grid) - 1)}
        /\ away \in {0}
Next == /\ away = 0 /\ away' \in (-Far)..Far /\ UNCHANGED ref
Spec == Init /\ [][Next]_<<ref, away>>
(* grid steps may be more than 32 bits of milliseconds: go in two halves *)
True2 == Norm(ref[1], ref[2] + Grid * away)
WeekOk == (away > -(HalfWeek \div Grid) /\ away < HalfWeek \div Grid) => InNearestWeek(True2[2], ref) = True2
BdsOk == (away > -(HalfWeek \div Grid) /\ away < HalfWeek \div Grid) =>
  InNearestWeek(FromBds((True2[2] + (WeekLen - 14000)) % WeekLen), ref) = True2
GloTod(t, leap) == ((((t[2] % DayLen) + DayLen) - (1000 * leap)) + 10800000) % DayLen
GloOk == \A leap \in {17, 18} : (Grid * away > -(DayLen \div 2) /\ Grid * away < DayLen \div 2) => FromGlo(GloTod(True2, leap), leap, ref) = True2
DiffOk == DiffMs(True2, ref) = L(Grid * away)
LaterOk == Later(True2, ref) <=> away > 0
=============================================================================
