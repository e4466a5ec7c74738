------------------------------ MODULE TimeTruth ------------------------------
(***************************************************************************)
(* The shared best known time.  A value is <<>> (unknown) or <<week,       *)
(* milliseconds>>.  Reports and readings happen at one instant each,       *)
(* somewhere between their call and their return.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
FirstWeek == 1876
Sources == {0, 1, 2}                 \* GPS, Galileo, Beidou
LaterThan(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
(* an operation: [op |-> "update", src, wn, ms, ok] or [op |-> "get"];
   ok: the time is a time at all *)
Takes(truth, o) == o.ok /\ o.wn >= FirstWeek /\ o.src \in Sources /\ (truth = <<>> \/ LaterThan(<<o.wn, o.ms>>, truth))
After(truth, o) == IF o.op = "update" /\ Takes(truth, o) THEN <<o.wn, o.ms>> ELSE truth
Answer(truth, o) == IF o.op = "update" THEN IF Takes(truth, o) THEN <<1>> ELSE <<0>> ELSE truth
=============================================================================
