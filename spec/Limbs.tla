------------------------------- MODULE Limbs -------------------------------
(* 64-bit two's complement arithmetic on four 16-bit limbs, least significant
   first: TLC's own integers have only 32 bits.                              *)
EXTENDS Bits
ZeroL == <<0, 0, 0, 0>>
L(v) == IntL(v)
AddL(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div 65536)
      s3 == a[3] + b[3] + (s2 \div 65536)
      s4 == a[4] + b[4] + (s3 \div 65536)
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
SubL(a, b) == AddL(a, Neg(b))
(* times 0 <= k <= 32767 *)
MulK(a, k) ==
  LET s1 == a[1] * k
      s2 == a[2] * k + (s1 \div 65536)
      s3 == a[3] * k + (s2 \div 65536)
      s4 == a[4] * k + (s3 \div 65536)
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
NegativeL(a) == a[4] >= 32768
AbsL(a) == IF NegativeL(a) THEN Neg(a) ELSE a
LtU(a, b) ==
  IF a[4] # b[4] THEN a[4] < b[4]
  ELSE IF a[3] # b[3] THEN a[3] < b[3]
  ELSE IF a[2] # b[2] THEN a[2] < b[2]
  ELSE a[1] < b[1]
LtL(a, b) == IF NegativeL(a) # NegativeL(b) THEN NegativeL(a) ELSE LtU(a, b)
LeL(a, b) == ~LtL(b, a)
(* shift left by n bits *)
RECURSIVE ShlL(_, _)
ShlL(a, n) == IF n = 0 THEN a ELSE IF n > 14 THEN ShlL(MulK(a, 16384), n - 14) ELSE MulK(a, Pow2(n))
(* unsigned division by 1 <= k <= 32767; quotient *)
DivK(a, k) ==
  LET q4 == a[4] \div k  r4 == a[4] % k
      n3 == r4 * 65536 + a[3]  q3 == n3 \div k  r3 == n3 % k
      n2 == r3 * 65536 + a[2]  q2 == n2 \div k  r2 == n2 % k
      n1 == r2 * 65536 + a[1]
  IN <<n1 \div k, q2, q3, q4>>
ModK(a, k) ==
  LET n3 == (a[4] % k) * 65536 + a[3]
      n2 == (n3 % k) * 65536 + a[2]
      n1 == (n2 % k) * 65536 + a[1]
  IN n1 % k
SmallL(a) == \/ a[4] = 0 /\ a[3] = 0 /\ a[2] < 16384
             \/ a[4] = 65535 /\ a[3] = 65535 /\ a[2] >= 49152
(* the ordinary integer, when |a| < 2^30 *)
ToInt(a) == IF NegativeL(a) THEN LET n == Neg(a) IN -(n[1] + 65536 * n[2]) ELSE a[1] + 65536 * a[2]
NearL(a, b, tol) == LET d == SubL(a, b) IN SmallL(d) /\ ToInt(d) <= tol /\ -ToInt(d) <= tol
=============================================================================
