----------------------------- MODULE NovMessages -----------------------------
(* The NovAtel messages: header fields and body layouts, as in the OEM7       *)
(* Commands and Logs Reference Manual.                                        *)
EXTENDS Bits

IdGPSEPHEM == 7
IdBESTPOS == 42
IdBESTVEL == 99
IdRANGECMP == 140
IdINSATT == 263
IdGLOEPHEMERIS == 723
IdRAWIMUSX == 1462
KnownIds == {7, 42, 99, 140, 263, 723, 1462}

(* u: unsigned, f: IEEE float (its bit pattern), n: signed and negated;
   the digit is the size in bytes *)
Layout(id) ==
  CASE id = IdGPSEPHEM ->
         <<"u4", "f8", "u4", "u4", "u4", "u4", "u4">> \o [i \in 1..16 |-> "f8"] \o
         <<"u4">> \o [i \in 1..5 |-> "f8"] \o <<"u4", "f8", "f8">>
    [] id = IdBESTPOS ->
         <<"u4", "u4", "f8", "f8", "f8", "f4", "u4", "f4", "f4", "f4",
           "u1", "u1", "u1", "u1", "f4", "f4">> \o [i \in 1..8 |-> "u1"]
    [] id = IdBESTVEL -> <<"u4", "u4", "f4", "f4", "f8", "f8", "f8", "f4">>
    [] id = IdINSATT -> <<"u4", "f8", "f8", "f8", "f8", "u4">>
    [] id = IdGLOEPHEMERIS ->
         <<"u2", "u2", "u1", "u1", "u2", "u4", "u4", "u2", "u2", "u4", "u4">> \o
         [i \in 1..12 |-> "f8"] \o [i \in 1..5 |-> "u4"]
    [] id = IdRAWIMUSX ->
         <<"u1", "u1", "u2", "f8", "u4", "u4", "n4", "u4", "u4", "n4", "u4">>
Size(t) == CASE t = "u1" -> 1 [] t = "u2" -> 2 [] t \in {"u4", "f4", "n4"} -> 4 [] t = "f8" -> 8
RECURSIVE SizeOf(_)
SizeOf(ts) == IF ts = <<>> THEN 0 ELSE Size(Head(ts)) + SizeOf(Tail(ts))
FixedSize == [id \in KnownIds \ {IdRANGECMP} |-> SizeOf(Layout(id))]

Field(s, o, t) ==
  CASE t = "u1" -> <<Byte(s, o)>>
    [] t = "u2" -> <<LE16(s, o)>>
    [] t \in {"u4", "f4"} -> LE32(s, o)
    [] t = "n4" -> Neg(LE32(s, o))
    [] t = "f8" -> LE64(s, o)
RECURSIVE Fields(_, _, _)
Fields(s, o, ts) ==
  IF ts = <<>> THEN <<>>
  ELSE <<Field(s, o, Head(ts))>> \o Fields(s, o + Size(Head(ts)), Tail(ts))

(* RANGECMP: a count, then records of 24 bytes made of little-endian bit fields *)
MaxRecords == 63
Limbs2(lo, hi) == <<lo, hi>>
U32At(s, p) == <<LEBits(s, p, 16), LEBits(s, p + 16, 16)>>
Record(s, o) ==
  LET b == 8 * o
      dop == LEBits(s, b + 48, 12)
  IN << U32At(s, b),                                          \* tracking status, 0:32
        <<LEBits(s, b + 32, 16), IF dop >= 2048 THEN dop + 61440 ELSE dop>>, \* Doppler 32:28, signed
        <<LEBits(s, b + 60, 16), LEBits(s, b + 76, 16), LEBits(s, b + 92, 4), 0>>, \* pseudorange 60:36
        U32At(s, b + 96),                                     \* ADR 96:32
        <<LEBits(s, b + 128, 4)>>, <<LEBits(s, b + 132, 4)>>, \* standard deviations
        <<LEBits(s, b + 136, 8)>>,                            \* PRN / slot
        <<LEBits(s, b + 144, 16), LEBits(s, b + 160, 5)>>,    \* lock time 144:21
        <<LEBits(s, b + 165, 5)>>,                            \* C/N0
        <<LEBits(s, b + 170, 6)>>,                            \* GLONASS frequency
        <<LEBits(s, b + 176, 16)>> >>                         \* reserved
RECURSIVE Records(_, _, _)
Records(s, o, n) == IF n = 0 THEN <<>> ELSE Record(s, o) \o Records(s, o + 24, n - 1)
RangeCmp(s) ==
  LET n == LE16(s, 0) k == IF n > MaxRecords THEN MaxRecords ELSE n
  IN <<<<k, 0>>>> \o Records(s, 4, k)

(* a body of the right size for its id *)
WellFormed(id, s) ==
  IF id = IdRANGECMP
  THEN Len(s) >= 4 /\ LE16(s, 2) = 0 /\ Len(s) = 4 + 24 * LE16(s, 0)
  ELSE id \in KnownIds /\ Len(s) = FixedSize[id]
BodyOf(id, s) == IF id = IdRANGECMP THEN RangeCmp(s) ELSE Fields(s, 0, Layout(id))

(* frames: the header's message id, body length, week and milliseconds *)
LongHeader == 28
ShortHeader == 12
IsLong(f) == Byte(f, 2) = 18
HeaderLen(f) == IF IsLong(f) THEN LongHeader ELSE ShortHeader
MsgId(f) == IF IsLong(f) THEN LE16(f, 4) ELSE LE16(f, 4)
MsgLen(f) == IF IsLong(f) THEN LE16(f, 8) ELSE Byte(f, 3)
MsgWeek(f) == IF IsLong(f) THEN LE16(f, 14) ELSE LE16(f, 6)
MsgMs(f) == IF IsLong(f) THEN LE32(f, 16) ELSE LE32(f, 8)
MsgBody(f) == SubSeq(f, HeaderLen(f) + 1, Len(f) - 4)

RealLenLong(s, i) == LE16(s, i - 1 + 8)
RealLenShort(s, i) == Byte(s, i - 1 + 3)
RealCrcOk(s, i, n) == Crc32(SubSeq(s, i, i + n - 1)) = <<LE16(s, i + n + 1), LE16(s, i + n - 1)>>
NP == INSTANCE NovProto WITH PreLong <- <<170, 68, 18>>, PreShort <- <<170, 68, 19>>,
        HdrLong <- LongHeader, HdrShort <- ShortHeader, LongMark <- 28,
        LenLong <- RealLenLong, LenShort <- RealLenShort, CrcLen <- 4,
        CrcOk <- RealCrcOk, Cap <- 4096
NovAtelClassify(s, i) == NP!NovClassify(s, i)
=============================================================================
