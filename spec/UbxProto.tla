------------------------------ MODULE UbxProto ------------------------------
(* UBX framing: B5 62, class, id, length, payload, two check bytes.  A frame  *)
(* whose check bytes are wrong is skipped as a whole, one that is longer than *)
(* the receiver's buffer is skipped up to its length field.                   *)
EXTENDS Integers, Sequences
CONSTANTS Sync1, Sync2, MaxPayload, LenAt(_, _), HdrLen, CrcLen, SumOk(_, _, _)
UbxClassify(s, i) ==
  LET have == Len(s) - i + 1 IN
  IF s[i] # Sync1 THEN [k |-> "skip", n |-> 1]
  ELSE IF have < 2 THEN [k |-> "wait"]
  ELSE IF s[i + 1] # Sync2 THEN [k |-> "skip", n |-> 1]
  ELSE IF have < HdrLen THEN [k |-> "wait"]
  ELSE LET n == LenAt(s, i) size == HdrLen + n + CrcLen IN
       IF n > MaxPayload THEN [k |-> "skip", n |-> HdrLen]
       ELSE IF have < size THEN [k |-> "wait"]
       ELSE IF SumOk(s, i, n) THEN [k |-> "frame", n |-> size]
       ELSE [k |-> "skip", n |-> size]
=============================================================================
