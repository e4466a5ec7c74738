-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bytes, bit fields and checksums, as every wire format in this code base *)
(* uses them.  Byte strings are sequences of 0..255.  Offsets are counted  *)
(* from zero, as interface documents do.                                   *)
(* TLC integers have 32 bits: fields of at most 30 bits are integers, wider*)
(* ones are sequences of 16-bit limbs, least significant first.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

Pow2(n) == 2^n

Byte(s, off) == s[off + 1]

(* little endian *)
LE16(s, o) == Byte(s, o) + 256 * Byte(s, o + 1)
LE24(s, o) == LE16(s, o) + 65536 * Byte(s, o + 2)
LE32(s, o) == <<LE16(s, o), LE16(s, o + 2)>>
LE64(s, o) == <<LE16(s, o), LE16(s, o + 2), LE16(s, o + 4), LE16(s, o + 6)>>
SignExtend(v, n) == IF v >= Pow2(n - 1) THEN v - Pow2(n) ELSE v
SLE16(s, o) == SignExtend(LE16(s, o), 16)
SLE8(s, o) == SignExtend(Byte(s, o), 8)
SLE24(s, o) == SignExtend(LE24(s, o), 24)

(* Two's complement negation of a limb sequence *)
RECURSIVE NegL(_, _)
NegL(l, carry) ==
  IF l = <<>> THEN <<>>
  ELSE LET v == (65535 - Head(l)) + carry
       IN <<v % 65536>> \o NegL(Tail(l), v \div 65536)
Neg(l) == NegL(l, 1)

(* Little-endian bit fields: bit i of the field is bit (p+i)%8 of byte (p+i)/8 *)
BitLE(s, i) == (Byte(s, i \div 8) \div Pow2(i % 8)) % 2
LEBits(s, p, n) ==
  FoldLeftDomain(LAMBDA acc, i : acc + BitLE(s, p + i - 1) * Pow2(i - 1), 0, [i \in 1..n |-> i])

(* Big-endian bit fields, as RTCM, SBAS and the GNSS navigation messages use *)
BitBE(s, i) == (Byte(s, i \div 8) \div Pow2(7 - (i % 8))) % 2
(* at most 30 bits; reads whole bytes, so it is cheap *)
GetU(s, p, n) ==
  IF n = 0 THEN 0 ELSE
  LET first == p \div 8
      last  == (p + n - 1) \div 8
      top   == Byte(s, first) % Pow2(8 - (p % 8))
      low   == 7 - ((p + n - 1) % 8)
      \* the last byte's unused low bits are dropped before it is appended
      acc   == IF first = last THEN top \div Pow2(low)
               ELSE FoldLeft(LAMBDA a, k : a * 256 + Byte(s, k), top,
                             [k \in 1..(last - first - 1) |-> first + k])
                    * Pow2(8 - low) + (Byte(s, last) \div Pow2(low))
  IN acc
GetS(s, p, n) == SignExtend(GetU(s, p, n), n)
(* sign-and-magnitude, as GLONASS uses *)
GetSM(s, p, n) == LET m == GetU(s, p + 1, n - 1) IN IF GetU(s, p, 1) = 1 THEN -m ELSE m

(* 31..64 bits, as 16-bit limbs *)
GetUL(s, p, n) ==
  [k \in 1..4 |->
     LET hi == n - 16 * (k - 1) IN  \* bits still left at this limb
       IF hi <= 0 THEN 0
       ELSE IF hi >= 16 THEN GetU(s, p + hi - 16, 16) ELSE GetU(s, p, hi)]
(* the same, sign extended to 64 bits *)
GetSL(s, p, n) ==
  LET u == GetUL(s, p, n) neg == GetU(s, p, 1) = 1 IN
  IF ~neg THEN u
  ELSE [k \in 1..4 |->
          LET hi == n - 16 * (k - 1) IN
            IF hi >= 16 THEN u[k] ELSE IF hi <= 0 THEN 65535 ELSE u[k] + (65536 - Pow2(hi))]

(* limbs of an ordinary integer (two's complement, 64 bits) *)
IntL(v) == IF v >= 0 THEN <<v % 65536, v \div 65536, 0, 0>>
           ELSE Neg(<<(-v) % 65536, (-v) \div 65536, 0, 0>>)

--------------------------------------------------------------------------
(* checksums *)
Iter8(step(_), x) == step(step(step(step(step(step(step(step(x))))))))

Crc24Step(c) == IF c >= 8388608 THEN ((c - 8388608) * 2) ^^ 8801531 \* 0x864CFB
                ELSE c * 2
Crc24Tab == [i \in 0..255 |-> Iter8(Crc24Step, i * 65536)]
Crc24Byte(c, b) == ((c % 65536) * 256) ^^ Crc24Tab[(c \div 65536) ^^ b]
Crc24(s) == FoldLeft(Crc24Byte, 0, s)

(* CRC-32, reflected, polynomial EDB88320, no inversion; state <<hi16, lo16>> *)
Crc32Step(c) ==
  LET hi == c[1] \div 2
      lo == (c[2] \div 2) + (c[1] % 2) * 32768
  IN IF c[2] % 2 = 1 THEN <<hi ^^ 60856, lo ^^ 33568>> ELSE <<hi, lo>>
Crc32Tab == [i \in 0..255 |-> Iter8(Crc32Step, <<0, i>>)]
Crc32Byte(c, b) ==
  LET t == Crc32Tab[(c[2] % 256) ^^ b]
      hi == c[1] \div 256
      lo == (c[2] \div 256) + (c[1] % 256) * 256
  IN <<t[1] ^^ hi, t[2] ^^ lo>>
Crc32(s) == FoldLeft(Crc32Byte, <<0, 0>>, s)

(* CRC-16 CCITT, polynomial 1021, initial value 0 *)
Crc16Step(c) == IF c >= 32768 THEN ((c - 32768) * 2) ^^ 4129 ELSE c * 2
Crc16Tab == [i \in 0..255 |-> Iter8(Crc16Step, i * 256)]
Crc16Byte(c, b) == ((c % 256) * 256) ^^ Crc16Tab[(c \div 256) ^^ b]
Crc16(s) == FoldLeft(Crc16Byte, 0, s)

(* 8-bit Fletcher: <<a, b>> *)
Fletcher8(s) == FoldLeft(LAMBDA c, b : LET a == (c[1] + b) % 256 IN <<a, (c[2] + a) % 256>>,
                         <<0, 0>>, s)

Xor8(s) == FoldLeft(LAMBDA c, b : c ^^ b, 0, s)
=============================================================================
