---------------------------- MODULE MC_NovLayout ----------------------------
(* The layouts cover each body exactly, and every field is where it says.    *)
EXTENDS NovMessages, FiniteSets
VARIABLES id, byte
Init == id \in KnownIds \ {IdRANGECMP} /\ byte = -1
Starts(i) == [k \in 1..Len(Layout(i)) |-> SizeOf(SubSeq(Layout(i), 1, k - 1))]
Zero(n) == [k \in 1..n |-> 0]
Pick == byte < FixedSize[id] - 1 /\ byte' = byte + 1 /\ UNCHANGED id
Spec == Init /\ [][Pick]_<<id, byte>>
Manual == [i \in KnownIds \ {IdRANGECMP} |->
  CASE i = 7 -> 224 [] i = 42 -> 72 [] i = 99 -> 44 [] i = 263 -> 40 [] i = 723 -> 144 [] i = 1462 -> 40]
Sizes == FixedSize = Manual
(* setting one byte changes exactly one field, the one whose extent contains it *)
OneField ==
  byte >= 0 =>
    LET z == BodyOf(id, Zero(FixedSize[id]))
        o == BodyOf(id, [Zero(FixedSize[id]) EXCEPT ![byte + 1] = 7])
        ch == {k \in 1..Len(z) : z[k] # o[k]}
    IN /\ Cardinality(ch) = 1
       /\ \A k \in ch : Starts(id)[k] <= byte /\ byte < Starts(id)[k] + Size(Layout(id)[k])
(* RANGECMP: the bit fields of a record tile its 192 bits, but for the two
   reserved bits the manual leaves out *)
RecZero == Record(Zero(24), 0)
RecBit(b) == Record([Zero(24) EXCEPT ![(b \div 8) + 1] = 2^(b % 8)], 0)
ASSUME \A b \in 0..191 : Cardinality({k \in 1..11 : RecBit(b)[k] # RecZero[k]}) = 1
=============================================================================
