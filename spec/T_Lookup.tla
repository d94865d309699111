----------------------------- MODULE T_Lookup ------------------------------
(* recorded look-ups of elements, isotopes and predefined materials (P21, P22) *)
EXTENDS TraceBase, Composition

LElement(e) ==
    /\ Chk("atomic weight", REq(e.r.w, AtomicWeight(e.z)))
    /\ Chk("element density", REq(e.r.d, ElementDensity(e.z)))
    /\ Chk("ionisation potential", REq(e.r.I, Ipot(e.z)))
    /\ Label(<<"element", e.z \in 1..WeightMaxZ, e.z \in 1..DensityMaxZ, e.z \in 1..IpotMaxZ, e.z < 0>>)

LIsotope(e) ==
    /\ Chk("number of isotopes", e.r.num = NumIsotopes(e.z))
    /\ Chk("isotope mass", e.r.a = IsotopeA(e.z, e.i))
    /\ Chk("isotope abundance", Same(e.r.ab, Abundance(e.z, e.i)))
    /\ Chk("isotope pair", e.r.pa = e.r.a /\ e.r.pab = e.r.ab)
    /\ Label(<<"isotope", e.z \in 1..IsotopeMaxZ, HasIsotope(e.z, e.i), e.i < 0, e.z < 0>>)

(* the constituents as a bag, their order is not significant *)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k][1] = x.A /\ s[k][2] = x.Z /\ s[k][3] = x.stn})
CountM(m, x) == Cardinality({k \in DOMAIN m.e : m.e[k] = x})
SameConstituents(d, m) ==
    /\ d.n = N(m) /\ Len(d.e) = d.n
    /\ \A k \in 1..N(m) : Count(d.e, m.e[k]) = CountM(m, m.e[k])
Describes(name, d, m) ==
    /\ Chk(<<name, "constituents">>, SameConstituents(d, m))
    /\ Chk(<<name, "density">>, REq(d.rho, m.rho))
    /\ Chk(<<name, "thickness">>, REq(d.th, Zero))
    /\ Chk(<<name, "molar mass">>, Same(d.M, m.M))
    /\ Chk(<<name, "ionisation potential">>, REq(d.I, m.I))
    /\ Chk(<<name, "fractions add up">>, d.n = 0 \/ RClose(RSum(d.w), One, Zero, R("2e-3")))
LPredefined(e) ==
    /\ Describes("material", e.r.m, Predefined(e.id))
    /\ ("c" \in DOMAIN e.r => Describes("compound", e.r.c, Predefined(e.id)) /\ Describes("named", e.r.g, Predefined(e.id)))
    /\ Label(<<"predefined", IF e.id \in 1..DensityMaxZ THEN "element"
                            ELSE IF e.id \in FirstCompound..LastCompound THEN "compound" ELSE "none">>)

LCWeight(e) == Chk("atomic weight", REq(e.r.v, AtomicWeight(e.z))) /\ Label(<<"C weight", e.z \in 1..WeightMaxZ>>)

Step(e) ==
    CASE e.op = "element" -> LElement(e)
      [] e.op = "isotope" -> LIsotope(e)
      [] e.op = "predefined" -> LPredefined(e)
      [] e.op = "c_weight" -> LCWeight(e)
Next == Advance /\ Step(Event)
=============================================================================
