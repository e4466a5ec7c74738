------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* What a specification may say about one observed value (four 16-bit      *)
(* limbs): an exact value, a value that times m is within a tolerance of   *)
(* another, a choice, nothing.  And a recorded deviation: Known says which *)
(* value is right and which one the code is known to give instead.         *)
(***************************************************************************)
EXTENDS Floats, Explain
X(v)  == [c |-> "eq", v |-> v]
XI(n) == [c |-> "eq", v |-> L(n)]
RECURSIVE MulAll(_, _)
MulAll(v, ks) == IF ks = <<>> THEN v ELSE MulAll(MulK(v, Head(ks)), Tail(ks))
(* |o * m1 * m2.. - v| <= tol (a limb) *)
NearT(ms, v, tol) == [c |-> "near", m |-> ms, v |-> v, tol |-> tol]
Near(ms, v, tol) == NearT(ms, v, L(tol))
(* v * n, 0 <= n < 2^30 *)
MulInt(v, n) == AddL(ShlL(MulK(v, n \div 32768), 15), MulK(v, n % 32768))
(* a small integer of either sign times a small one; a limb of either sign times n *)
MulInt2(a, b) == IF a >= 0 THEN MulInt(L(a), b) ELSE Neg(MulInt(L(-a), b))
MulS(v, n) == IF NegativeL(v) THEN Neg(MulInt(Neg(v), n)) ELSE MulInt(v, n)
(* |o * n - v| <= tol (a limb), n < 2^30 *)
NearW(n, v, tol) == [c |-> "nearw", n |-> n, v |-> v, tol |-> tol]
(* the observed value is a double x with |x * 2^s - v| <= tol, where v and tol are limbs *)
Real(s, v, tol) == [c |-> "real", s |-> s, v |-> v, tol |-> tol]
(* exactly v / 2^s *)
Exactly(s, v) == [c |-> "real", s |-> s + 4, v |-> ShlL(v, 4), tol |-> ZeroL]
(* the single-precision value nearest to the double d *)
Single(d) == [c |-> "single", v |-> d]
(* the square root of the double d (0 <= d < 2^28), as a double and as a single *)
Root(d) == [c |-> "root", v |-> d]
RootF(d) == [c |-> "rootf", v |-> d]
OneOf(S) == [c |-> "in", set |-> S]
Between(lo, hi) == [c |-> "range", lo |-> lo, hi |-> hi]
Anything == [c |-> "any"]
(* the value's low 2^k part *)
LowPart(v, m) == [c |-> "low", v |-> v, m |-> m]
Known(key, right, deviation) == [c |-> "known", key |-> key, v |-> right, dev |-> deviation]

MatchV(d, o) ==
  CASE d.c = "eq" -> o = d.v
    [] d.c = "near" -> LeL(AbsL(SubL(MulAll(o, d.m), d.v)), d.tol)
    [] d.c = "nearw" -> LeL(AbsL(SubL(MulInt(o, d.n), d.v)), d.tol)
    [] d.c = "real" -> LET q == F64Scaled(o, d.s) IN q.ok /\ LeL(AbsL(SubL(q.v, d.v)), d.tol)
    [] d.c = "single" ->
         IF F64Exp(d.v) = 0 THEN o[1] = 0 /\ o[2] % 32768 = 0 ELSE
         LET s == 1073 - F64Exp(d.v) q == F32Scaled(o, s) IN
         q.ok /\ LeL(AbsL(SubL(q.v, F64Scaled(d.v, s).v)), L(67108864))
    [] d.c = "root" ->
         LET q == F64Scaled(o, 16) r == F64Scaled(d.v, 32) IN
         q.ok /\ r.ok /\ SmallL(q.v) /\ LeL(AbsL(SubL(MulInt(q.v, ToInt(q.v)), r.v)), AddL(MulK(q.v, 3), L(3)))
    [] d.c = "rootf" ->
         LET q == F32Scaled(o, 12) r == F64Scaled(d.v, 24) IN
         q.ok /\ r.ok /\ SmallL(q.v) /\ LeL(AbsL(SubL(MulInt(q.v, ToInt(q.v)), r.v)), AddL(MulK(q.v, 5), L(5)))
    [] d.c = "in" -> o \in d.set
    [] d.c = "range" -> LeL(d.lo, o) /\ LeL(o, d.hi)
    [] d.c = "any" -> TRUE
    [] d.c = "low" -> o[1] % d.m = d.v
    [] d.c = "known" -> IF o = d.v THEN TRUE ELSE o = d.dev /\ PrintT(<<"KNOWN", d.key>>)
Show(d) == CASE d.c \in {"eq", "low", "known", "single", "root", "rootf"} -> d.v [] d.c = "near" -> <<"times", d.m, d.v, "+-", d.tol>>
             [] d.c = "nearw" -> <<"times", d.n, d.v, "+-", d.tol>>
             [] d.c = "real" -> <<"a double, times 2 to the", d.s, d.v, "+-", d.tol>>
             [] d.c = "in" -> d.set [] d.c = "range" -> <<d.lo, d.hi>> [] OTHER -> "anything"
MatchField(what, d, o) ==
  IF MatchV(d, o) THEN TRUE ELSE PrintT(<<"MISMATCH", what, "expected", Show(d), "observed", o>>) /\ FALSE

(* an expected message: kind, sender, fields; the kind "*": any message *)
Msg(k, s, f) == [k |-> k, s |-> s, f |-> f]
MatchMsg(w, d, o) ==
  /\ (IF d.k = "*" THEN TRUE ELSE Same(<<w, "kind">>, d.k, o.k))
  /\ Same(<<w, d.k, "sender">>, d.s, o.s)
  /\ (IF d.k = "*" THEN TRUE ELSE Same(<<w, d.k, "number of fields">>, Len(d.f), Len(o.f)))
  /\ \A i \in 1..Len(d.f) : MatchField(<<w, d.k, "field", i>>, d.f[i], o.f[i])
Kinds(ms) == [i \in 1..Len(ms) |-> ms[i].k]
MatchMsgs(ds, os) ==
  /\ Same("messages", Kinds(ds), [i \in 1..Len(os) |-> IF i <= Len(ds) /\ ds[i].k = "*" THEN "*" ELSE os[i].k])
  /\ \A i \in 1..Len(ds) : MatchMsg(i, ds[i], os[i])
=============================================================================
