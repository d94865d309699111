------------------------------- MODULE Mocadi -------------------------------
(***************************************************************************)
(* The beam line description for Mocadi: a BEAM block with the number of   *)
(* particles, energy, mass and charge and the spreads in cm and mrad, and  *)
(* a MATTER block per layer with mass, element or compound identifier,     *)
(* density in mg/cm3 and length in cm.  Numbers have six decimals.         *)
(***************************************************************************)
EXTENDS Composition

Written(x, y) == RClose(x, y, R("1e-14"), R("5.1e-7"))       \* x is y rounded to six decimals
SameConstituents(a, b) ==
    /\ Len(a.e) = Len(b.e)
    /\ \A k \in DOMAIN a.e : REq(a.e[k].A, b.e[k].A) /\ a.e[k].Z = b.e[k].Z /\ REq(a.e[k].stn, b.e[k].stn)
(* identifiers which describe a compound *)
Identifiers(m) == {i \in FirstCompound..LastCompound : SameConstituents(Predefined(i), m)}
Listed(m) == {i \in Identifiers(m) : RClose(Predefined(i).rho, m.rho, Zero, R("1e-6")) /\ REq(Predefined(i).M, m.M)}

Beam(p, x, y) == <<R(100000), p.T, Zero, p.A, p.Z,
                   R(2), x.sigma_x, R(1000) (.) x.sigma_a, Zero, Zero, Zero,
                   R(2), y.sigma_x, R(1000) (.) y.sigma_a, Zero, Zero, Zero,
                   One, Zero, Zero, Zero, Zero, Zero>>
MaterialCode(m, a, z) ==
    IF Len(m.e) = 1 THEN Written(a, m.e[1].A) /\ Written(z, R(m.e[1].Z))
    ELSE IF Listed(m) # {} THEN Written(a, Zero) /\ \E i \in Listed(m) : Written(z, R(i))
    ELSE \E i \in Identifiers(m) \cup {0} : Written(z, R(i))        \* not in the list: no or a similar compound
Length(m) == IF Pos(m.rho) THEN m.th (/) m.rho ELSE Zero
=============================================================================
