---------------------------- MODULE Composition ----------------------------
(***************************************************************************)
(* Composition of a material: fractions, molar mass, densities and the     *)
(* weighted averages of quantities of its constituents.                    *)
(***************************************************************************)
EXTENDS Elements

N(m) == Len(m.e)
ByWeight(x) == x.stn \prec One          \* amounts below one are weight fractions

NaturalA(a, z) == IF Pos(a) THEN a ELSE AtomicWeight(z)

(* molar mass that follows from the amounts *)
SumStn(es) == RSum([k \in DOMAIN es |-> es[k].stn (.) es[k].A])
AllByWeight(es) == \A k \in DOMAIN es : ByWeight(es[k])
WeightMolarMass(es) == One (/) RSum([k \in DOMAIN es |-> es[k].stn (/) es[k].A])
DerivedM(es) == IF AllByWeight(es) THEN WeightMolarMass(es) ELSE SumStn(es)

WeightFraction(m, k) == IF ByWeight(m.e[k]) THEN m.e[k].stn ELSE (m.e[k].stn (.) m.e[k].A) (/) m.M
MolarFraction(m, k) == IF ByWeight(m.e[k]) THEN (m.e[k].stn (.) m.M) (/) m.e[k].A ELSE m.e[k].stn

NumberDensity(m) == (NAvogadro (.) m.rho) (/) m.M
NumberDensityCm2(m) == (NAvogadro (.) m.th) (/) m.M
NumberDensityOf(m, k) == NumberDensity(m) (.) MolarFraction(m, k)
NumberDensityCm2Of(m, k) == NumberDensityCm2(m) (.) MolarFraction(m, k)
LengthCm(m) == m.th (/) m.rho

(* average with the weight fractions *)
WAverage(m, f(_)) == RSum([k \in 1..N(m) |-> WeightFraction(m, k) (.) f(m.e[k])])

(* material of a trace event: mass zero is the natural weight; M given or derived *)
MatOf(j) ==
    LET es == [k \in 1..Len(j.e) |-> [A |-> NaturalA(j.e[k][1], j.e[k][2]), Z |-> j.e[k][2], stn |-> j.e[k][3]]]
    IN [e |-> es, rho |-> j.rho, th |-> j.th, I |-> j.I,
        M |-> IF Len(j.M) = 0 THEN DerivedM(es) ELSE j.M]
=============================================================================
