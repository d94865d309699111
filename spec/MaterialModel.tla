--------------------------- MODULE MaterialModel ---------------------------
(* all short programs over material objects with a few values of each kind *)
EXTENDS Material, TLC
CONSTANTS Registers, MaxSteps
VARIABLES n,        \* steps done
          derived   \* register -> molar mass is the one that follows from the amounts
vars == <<ms, n, derived>>

Masses == {Zero, R(3)}
Counts == {One, R(2)}
Fractions == {R("0.25"), R("0.75")}
Lengths == {R("0.5"), R(4)}
Xs == {Constituent(a, 8, s) : a \in Masses, s \in Counts \cup Fractions}
Ls == {<<Constituent(Zero, 1, s), Constituent(R(3), 8, t)>> : s, t \in Counts \cup Fractions}

Mixed(m) == \E i, j \in DOMAIN m.e : ByWeight(m.e[i]) /\ ~ByWeight(m.e[j])
Init == ms = [d \in Registers |-> Empty] /\ n = 0 /\ derived = [d \in Registers |-> FALSE]
Der(d, b) == derived' = [derived EXCEPT ![d] = b]
Counted(m) == \A k \in DOMAIN m.e : ~ByWeight(m.e[k])
Next ==
    /\ n < MaxSteps /\ n' = n + 1
    /\ \E d \in Registers :
        \/ New(d) /\ Der(d, FALSE)
        \/ \E a \in Masses : Element(d, a, 8, R(4), One, Zero) /\ Der(d, TRUE)
        \/ \E es \in Ls, mm \in {Zero, R(7)} : FromList(d, es, One, R(50), mm) /\ Der(d, RIsZero(mm))
        \/ \E a \in Registers \ {d} : Copy(d, a) /\ Der(d, derived[a])
        \/ \E x \in Xs : AddElement(d, x) /\ Der(d, Counted(ms'[d]) /\ (derived[d] \/ (ms[d].e = <<>> /\ RIsZero(ms[d].M))))
        \/ Calculate(d) /\ Der(d, derived[d] \/ AllByWeight(ms[d].e))
        \/ SetM(d, R(11)) /\ Der(d, FALSE)
        \/ \E v \in Lengths : (SetDensity(d, v) \/ SetThickness(d, v) \/ SetLength(d, v) \/ SetI(d, v)) /\ UNCHANGED derived
Spec == Init /\ [][Next]_vars

Near(x, y) == RClose(x, y, R("1e-12"), Zero)
SumW(m) == RSum([k \in 1..N(m) |-> WeightFraction(m, k)])
SumF(m) == RSum([k \in 1..N(m) |-> MolarFraction(m, k)])
Whole(m) == RSum([k \in 1..N(m) |-> m.e[k].stn])
\* weight fractions of counted atoms add up to one, those given are kept; molar fractions of given weights add up to one
Fractions1 == \A d \in Registers : LET m == ms[d] IN
    derived[d] /\ N(m) > 0 =>
        /\ (Counted(m) => Near(SumW(m), One))
        /\ (AllByWeight(m.e) => Near(SumW(m), Whole(m)) /\ Near(SumF(m), One))
\* mass balance of the number densities
Balance == \A d \in Registers : LET m == ms[d] IN
    N(m) > 0 => /\ Near(RSum([k \in 1..N(m) |-> NumberDensityOf(m, k) (.) m.e[k].A]), NAvogadro (.) (m.rho (.) SumW(m)))
                /\ Near(RSum([k \in 1..N(m) |-> (NumberDensityCm2Of(m, k) (.) m.e[k].A)]), NAvogadro (.) (m.th (.) SumW(m)))
Positive == \A d \in Registers : N(ms[d]) > 0 => ms[d].M \succ Zero
Convert == \A d \in Registers : Near(LengthCm(ms[d]) (.) ms[d].rho, ms[d].th)
\* the molar mass of weight fractions lies between the masses of the constituents
Between == \A d \in Registers : LET m == ms[d] IN
    derived[d] /\ N(m) > 0 /\ AllByWeight(m.e) /\ Near(Whole(m), One) =>
        /\ \E k \in 1..N(m) : m.e[k].A \preceq (m.M (.) R("1.0000000001"))
        /\ \E k \in 1..N(m) : m.M \preceq (m.e[k].A (.) R("1.0000000001"))
\* a step changes one object only
OneOnly == [][Cardinality({d \in Registers : ms'[d] # ms[d]}) <= 1]_vars
=============================================================================
