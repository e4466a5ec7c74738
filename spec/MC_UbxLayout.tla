---------------------------- MODULE MC_UbxLayout ----------------------------
(* The layouts have the sizes the interface description gives, and cover each *)
(* payload exactly: one byte belongs to exactly one field.                    *)
EXTENDS UbxCodec, FiniteSets
VARIABLES t, byte
Init == t \in UbxTypes /\ byte = -1
Zero(n) == [k \in 1..n |-> 0]
All(x) == FixedPart(x) \o Group(x)
Pick == byte < SizeOf(All(t)) - 1 /\ byte' = byte + 1 /\ UNCHANGED t
Spec == Init /\ [][Pick]_<<t, byte>>
Manual == [x \in UbxTypes |->
  CASE x = HNR_PVT -> 72 [] x = NAV_PVT -> 92 [] x = RXM_RAWX -> 16 [] x = RXM_SFRBX -> 8 [] x = NAV_ATT -> 32
    [] x = NAV_CLOCK -> 20 [] x = NAV_VELECEF -> 20 [] x = NAV_SAT -> 8 [] x = NAV_STATUS -> 16
    [] x = MGA_GPS_EPH -> 68 [] x = ESF_INS -> 36 [] x = ESF_MEAS -> 8 [] x = ESF_RAW -> 4]
ManualGroup == [x \in UbxTypes |->
  CASE x = RXM_RAWX -> 32 [] x = RXM_SFRBX -> 4 [] x = NAV_SAT -> 12 [] x = ESF_MEAS -> 4 [] x = ESF_RAW -> 8
    [] OTHER -> 0]
Sizes == FixedSize = Manual /\ GroupSize = ManualGroup
OneField ==
  byte >= 0 =>
    LET z == Fields(Zero(SizeOf(All(t))), 0, All(t))
        o == Fields([Zero(SizeOf(All(t))) EXCEPT ![byte + 1] = 131], 0, All(t))
    IN Cardinality({k \in 1..Len(z) : z[k] # o[k]}) = 1
=============================================================================
