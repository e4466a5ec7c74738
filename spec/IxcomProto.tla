----------------------------- MODULE IxcomProto -----------------------------
(* iXCOM framing: 7E, 16 byte header with the length of the whole message,    *)
(* payload, 4 byte footer.  The receiver does not check the checksum of       *)
(* messages it does not decode: whatever follows a sync byte and a possible   *)
(* length is a message.  A sync byte with an impossible length is noise.      *)
EXTENDS Integers, Sequences
CONSTANTS Sync, LenAt(_, _), HdrLen, FootLen, MaxLen
IxcomClassify(s, i) ==
  LET have == Len(s) - i + 1 IN
  IF s[i] # Sync THEN [k |-> "skip", n |-> 1]
  ELSE IF have < HdrLen THEN [k |-> "wait"]
  ELSE LET n == LenAt(s, i) IN
       IF n < HdrLen + FootLen \/ n > MaxLen THEN [k |-> "skip", n |-> 1]
       ELSE IF have < n THEN [k |-> "wait"]
       ELSE [k |-> "frame", n |-> n]
=============================================================================
