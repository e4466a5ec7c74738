------------------------------ MODULE BitField ------------------------------
(***************************************************************************)
(* A buffer of bits and the fields in it: a field is n bits, the most      *)
(* significant first, from bit p of the buffer.  Writing changes these     *)
(* bits only; reading changes nothing.  A value is a word: a sequence of   *)
(* Wide bits, in two's complement.  Three kinds of fields: unsigned, two's *)
(* complement, and sign and magnitude.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Wide,   \* bits of a long word
          Half    \* bits of a word

Take(s, p, n) == SubSeq(s, p + 1, p + n)
Put(s, p, v) == [i \in 1..Len(s) |-> IF i > p /\ i <= p + Len(v) THEN v[i - p] ELSE s[i]]
LowBits(v, n) == SubSeq(v, Len(v) - n + 1, Len(v))
Fill(b, n) == [i \in 1..n |-> b]
Inverted(v) == [i \in 1..Len(v) |-> 1 - v[i]]
(* the last bit that is set, 0 where there is none *)
LastSet(v) == LET s == {i \in 1..Len(v) : v[i] = 1} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
(* the value's negative: all bits before the last one that is set change *)
Negative(v) == [i \in 1..Len(v) |-> IF i < LastSet(v) THEN 1 - v[i] ELSE v[i]]
Below0(v) == v[1] = 1
Magnitude(v) == IF Below0(v) THEN Negative(v) ELSE v

(* kinds of fields; the widths they may have when written *)
Kinds == {"u", "ul", "s", "sl", "sm"}
Widest(k) == IF k \in {"ul", "sl"} THEN Wide ELSE Half
Written(s, k, p, n, v) ==
  IF n \notin 1..Widest(k) THEN s
  ELSE IF k = "sm" THEN Put(s, p, <<v[1]>> \o LowBits(Magnitude(v), n - 1))
  ELSE Put(s, p, LowBits(v, n))
Value(s, k, p, n) ==
  LET f == Take(s, p, n) IN
  CASE k \in {"u", "ul"} -> Fill(0, Wide - n) \o f
    [] k \in {"s", "sl"} -> Fill(f[1], Wide - n) \o f
    [] k = "sm" -> LET m == Fill(0, Wide - n + 1) \o Take(s, p + 1, n - 1) IN IF f[1] = 1 THEN Negative(m) ELSE m
=============================================================================
