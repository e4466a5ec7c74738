---------------------------- MODULE MC_BitField ----------------------------
(* What is written is what is read, and only that changes: every buffer,    *)
(* field and word of a small size.                                          *)
EXTENDS BitField, TLC
CONSTANTS Size
VARIABLE buf
Word(x) == [i \in 1..Wide |-> (x \div 2^(Wide - i)) % 2]     \* of a number in 0..2^Wide-1
RECURSIVE Nat1(_)
Nat1(v) == IF v = <<>> THEN 0 ELSE 2 * Nat1(SubSeq(v, 1, Len(v) - 1)) + v[Len(v)]
Number(v) == IF Below0(v) THEN Nat1(v) - 2^Len(v) ELSE Nat1(v)
Writes == {w \in [k : Kinds, p : 0..(Size - 1), n : 0..(Wide + 1), x : 0..(2^Wide - 1)] : w.p + w.n <= Size}
After(w) == Written(buf, w.k, w.p, w.n, Word(w.x))
Init == buf = Fill(0, Size)
Write == \E w \in Writes : buf' = After(w)
Spec == Init /\ [][Write]_buf
Good(w) == w.n \in 1..Widest(w.k)
OnlyThat == \A w \in Writes : LET b == After(w) IN \A i \in 1..Size : (~Good(w) \/ i <= w.p \/ i > w.p + w.n) => b[i] = buf[i]
ReadBack ==
  \A w \in Writes : Good(w) =>
    LET x == Number(Value(After(w), w.k, w.p, w.n)) n == w.n v == Number(Word(w.x)) IN
    CASE w.k \in {"u", "ul"} -> (n < Wide => x = v % 2^n) /\ (x - v) % 2^n = 0
      [] w.k \in {"s", "sl"} -> x >= -(2^(n - 1)) /\ x < 2^(n - 1) /\ (x - v) % 2^n = 0
      [] w.k = "sm" -> (v > -(2^(n - 1)) /\ v < 2^(n - 1)) => x = v
=============================================================================
