------------------------------- MODULE Floats -------------------------------
(* IEEE 754 doubles and singles, given as limbs, in scaled integers           *)
EXTENDS Limbs
RECURSIVE ShrL(_, _)
ShrL(a, n) == IF n <= 0 THEN a
              ELSE IF n > 14 THEN ShrL(DivK(a, 16384), n - 14) ELSE DivK(a, Pow2(n))
(* magnitude m (limbs), exponent e: |x| = m * 2^e *)
F64Sign(x) == x[4] >= 32768
F64Exp(x) == (x[4] % 32768) \div 16
F64Mant(x) == <<x[1], x[2], x[3], (x[4] % 16) + (IF F64Exp(x) = 0 THEN 0 ELSE 16)>>
F32Exp(x) == (x[2] % 32768) \div 128
F32Mant(x) == <<x[1], (x[2] % 128) + (IF F32Exp(x) = 0 THEN 0 ELSE 128), 0, 0>>
(* x * 2^s towards zero; ok says that x is finite and the result below 2^62 *)
Scaled(neg, mant, e, s) ==
  LET k == e + s
      v == IF k >= 0 THEN ShlL(mant, k) ELSE IF k < -80 THEN ZeroL ELSE ShrL(mant, -k)
  IN [ok |-> TRUE, v |-> IF neg THEN Neg(v) ELSE v]
NotOk == [ok |-> FALSE, v |-> ZeroL]
F64Scaled(x, s) ==
  LET e == F64Exp(x) IN
  IF e = 2047 \/ e - 1075 + s > 9 THEN NotOk
  ELSE Scaled(F64Sign(x), F64Mant(x), (IF e = 0 THEN 1 ELSE e) - 1075, s)
F32Scaled(x, s) ==
  LET e == F32Exp(x) IN
  IF e = 255 \/ e - 150 + s > 38 THEN NotOk
  ELSE Scaled(x[2] >= 32768, F32Mant(x), (IF e = 0 THEN 1 ELSE e) - 150, s)
=============================================================================
