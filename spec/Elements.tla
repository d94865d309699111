------------------------------ MODULE Elements ------------------------------
(***************************************************************************)
(* Reference data of elements, isotopes and predefined materials, and      *)
(* what the look-ups return for any integer argument.                      *)
(***************************************************************************)
EXTENDS Constants

ElementTable == RTable("elements.txt")       \* weight, density, ionisation potential
IsotopeTable == RTable("isotopes.txt")       \* A, abundance, A, abundance, ..
MaterialTable == RTable("materials.txt")     \* id, density, M, I, (A, Z, stn)*

WeightMaxZ == 109
DensityMaxZ == 98
IpotMaxZ == 120
IsotopeMaxZ == 109

AtomicWeight(z) == IF z \in 1..WeightMaxZ THEN ElementTable[z][1] ELSE Zero
ElementDensity(z) == IF z \in 1..DensityMaxZ THEN ElementTable[z][2] ELSE Zero
Ipot(z) == IF z \in 1..IpotMaxZ THEN ElementTable[z][3] ELSE Zero

NumIsotopes(z) == IF z \in 1..IsotopeMaxZ THEN Len(IsotopeTable[z]) \div 2 ELSE 0
HasIsotope(z, i) == i >= 0 /\ i < NumIsotopes(z)
IsotopeA(z, i) == IF HasIsotope(z, i) THEN RToInt(IsotopeTable[z][2*i + 1]) ELSE 0
Abundance(z, i) == IF HasIsotope(z, i) THEN IsotopeTable[z][2*i + 2] ELSE Zero

FirstCompound == 201
LastCompound == 349

(* a material: sequence of constituents and the other stored quantities *)
MatEmpty == [e |-> <<>>, rho |-> R("1e-5"), th |-> Zero, I |-> Zero, M |-> Zero]
MatOfRow(r) ==
    [e |-> [k \in 1..((Len(r) - 4) \div 3) |->
               [A |-> r[3*k + 2], Z |-> RToInt(r[3*k + 3]), stn |-> r[3*k + 4]]],
     rho |-> r[2], th |-> Zero, I |-> r[4], M |-> r[3]]
MatOfElement(z) ==
    [e |-> <<[A |-> AtomicWeight(z), Z |-> z, stn |-> One]>>,
     rho |-> ElementDensity(z), th |-> Zero, I |-> Zero, M |-> AtomicWeight(z)]
Predefined(id) ==
    IF id \in 1..DensityMaxZ THEN MatOfElement(id)
    ELSE IF id \in FirstCompound..LastCompound THEN MatOfRow(MaterialTable[id - FirstCompound + 1])
    ELSE MatEmpty

(* consistency of the reference data itself, checked by TLC as assumptions *)
RowIds == \A k \in 1..Len(MaterialTable) : RToInt(MaterialTable[k][1]) = FirstCompound + k - 1
AbundancesAddUp ==
    \A z \in 1..IsotopeMaxZ :
        RClose(SumOver(NumIsotopes(z), LAMBDA k : Abundance(z, k - 1)), One, Zero, R("2e-3"))
IsotopesSorted ==
    \A z \in 1..IsotopeMaxZ : \A i \in 0..(NumIsotopes(z) - 2) : Abundance(z, i + 1) \preceq Abundance(z, i)
IsotopeMassAgrees ==
    \A z \in 1..IsotopeMaxZ :
        RClose(SumOver(NumIsotopes(z), LAMBDA k : R(IsotopeA(z, k - 1)) (.) Abundance(z, k - 1)),
               AtomicWeight(z), Zero, R("0.15"))
ASSUME DataConsistent == RowIds /\ AbundancesAddUp /\ IsotopesSorted /\ IsotopeMassAgrees
=============================================================================
