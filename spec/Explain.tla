------------------------------ MODULE Explain ------------------------------
(* comparisons that say what differed, for the report                        *)
EXTENDS TLC
Same(what, expected, observed) ==
  IF expected = observed THEN TRUE ELSE PrintT(<<"MISMATCH", what, "expected", expected, "observed", observed>>) /\ FALSE
Holds(what, cond) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", what>>) /\ FALSE
=============================================================================
