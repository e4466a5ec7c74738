------------------------------ MODULE NovProto ------------------------------
(***************************************************************************)
(* NovAtel OEM binary framing: a long header (its length is in the header) *)
(* and a short header, both followed by a body and a CRC over header and   *)
(* body.  The constants let the model checker use a miniature of the       *)
(* protocol and the trace check use the real one.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS PreLong, PreShort,   \* preambles
          HdrLong, HdrShort,   \* header lengths, preamble included
          LongMark,            \* value of the byte after the long preamble
          LenLong(_, _),       \* body length, from the bytes and the frame's start
          LenShort(_, _),
          CrcLen,
          CrcOk(_, _, _),      \* bytes, start, number of bytes covered
          Cap                  \* the receiver's buffer: longer frames are not frames

StartsWith(s, i, p) ==
  \A k \in 1..Len(p) : i + k - 1 <= Len(s) => s[i + k - 1] = p[k]

NovClassifyHdr(s, i, hdr, BodyLen(_, _)) ==
  LET have == Len(s) - i + 1 IN
  IF have < hdr THEN [k |-> "wait"]
  ELSE LET n == hdr + BodyLen(s, i) + CrcLen IN
       IF n > Cap THEN [k |-> "skip", n |-> 1]
       ELSE IF have < n THEN [k |-> "wait"]
       ELSE IF CrcOk(s, i, n - CrcLen) THEN [k |-> "frame", n |-> n]
       ELSE [k |-> "skip", n |-> 1]

NovClassify(s, i) ==
  LET have == Len(s) - i + 1 IN
  IF StartsWith(s, i, PreLong) /\ have >= Len(PreLong) THEN
    \* the byte after the long preamble says the header's length
    IF have > Len(PreLong) /\ s[i + Len(PreLong)] # LongMark THEN [k |-> "skip", n |-> 1]
    ELSE NovClassifyHdr(s, i, HdrLong, LenLong)
  ELSE IF StartsWith(s, i, PreShort) /\ have >= Len(PreShort) THEN
    NovClassifyHdr(s, i, HdrShort, LenShort)
  ELSE IF StartsWith(s, i, PreLong) \/ StartsWith(s, i, PreShort) THEN [k |-> "wait"]
  ELSE [k |-> "skip", n |-> 1]
=============================================================================
