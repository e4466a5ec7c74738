------------------------------ MODULE MC_UbxNav ------------------------------
(* Every short history of GPS subframes of two satellites and two issues of  *)
(* data: what is decoded together belongs together, and nothing complete is  *)
(* held back.                                                                *)
EXTENDS UbxNav
CONSTANTS Depth, Sats
VARIABLES st, hist
vars == <<st, hist>>
(* a subframe whose every word names its satellite and issue *)
Mark(sat, iod) == 1000 + (10 * sat) + iod
Word(sat, k, iod, j) ==
  LET lo == Mark(sat, iod) IN
  CASE j = 1 -> <<lo, 139 * 64>>                            \* preamble at bit 22
    [] j = 2 -> <<(lo \div 2048) * 2048 + 256 * k + (lo % 256), 0>>
    [] j \in {8, 3, 10} -> <<lo, iod * 64>>
    [] OTHER -> <<lo, 0>>
Sub(sat, k, iod) == [j \in 1..10 |-> Word(sat, k, iod, j)]
Init == st = [eph |-> <<>>, decoded |-> 0, fails |-> {}, leapKnown |-> FALSE, leap |-> ZeroL] /\ hist = <<>>
Receive == /\ Len(hist) < Depth
           /\ \E sat \in Sats, k \in 1..3, iod \in {0, 1} :
                LET h == GpsSubframe(st, ZeroL, sat, Sub(sat, k, iod)) IN
                /\ st' = h.st
                /\ hist' = Append(hist, [sat |-> sat, k |-> k, iod |-> iod, outs |-> h.outs])
Spec == Init /\ [][Receive]_vars
DataBytes(o) == [i \in 1..24 |-> o.f[3 + 4 * (i - 1) + 1].v[1] + 256 * o.f[3 + 4 * (i - 1) + 2].v[1]]
(* the words handed to the decoder all belong to one satellite and one issue *)
OneIssue == \A i \in 1..Len(hist) : hist[i].outs # <<>> =>
  LET o == hist[i].outs[1] IN
  /\ o.f[1] = XI(hist[i].sat)
  /\ \A j \in 1..24 : DataBytes(o)[j] = Mark(hist[i].sat, hist[i].iod)
(* a piece of an older issue may cost one more round, but not more: five pieces of one
   issue in their order give an ephemeris *)
Turn(i) == \A m \in i..(i + 4) : hist[m].sat = hist[i].sat /\ hist[m].iod = hist[i].iod /\ (m = i \/ hist[m].k = 1 + (hist[m - 1].k % 3))
Complete == \A i \in 1..(Len(hist) - 4) : Turn(i) => \E j \in i..(i + 4) : hist[j].outs # <<>>
(* an ephemeris uses up its pieces: the next one takes three new ones *)
UsedUp == \A i, j \in 1..Len(hist) : (i < j /\ hist[i].sat = hist[j].sat /\ hist[i].outs # <<>> /\ hist[j].outs # <<>>) =>
  \A k \in 1..3 : \E m \in (i + 1)..j : hist[m].sat = hist[i].sat /\ hist[m].k = k
=============================================================================
