----------------------------- MODULE T_Material -----------------------------
(* recorded programs over material objects (P13): steps of Material.tla *)
EXTENDS TraceBase, Material

Near(x, y) == RClose(x, y, R("1e-10"), Zero)
Elems(m, d) == Len(d.e) = N(m) /\ \A k \in 1..N(m) : REq(d.e[k][1], m.e[k].A) /\ d.e[k][2] = m.e[k].Z /\ REq(d.e[k][3], m.e[k].stn)
Shows(m, d) ==
    /\ Chk("number of constituents", d.n = N(m))
    /\ Chk("constituents", Elems(m, d))
    /\ Chk("density", REq(d.rho, m.rho))
    /\ Chk("thickness", Near(d.th, m.th))
    /\ Chk("length", Near(d.cm, LengthCm(m)))
    /\ Chk("ionisation potential", REq(d.I, m.I))
    /\ Chk("molar mass", Near(d.M, m.M))
    /\ (N(m) > 0 =>
         /\ Chk("weight fractions", \A k \in 1..N(m) : Near(d.w[k], WeightFraction(m, k)))
         /\ Chk("molar fractions", \A k \in 1..N(m) : Near(d.f[k], MolarFraction(m, k)))
         /\ Chk("number density", Near(d.nd, NumberDensity(m)))
         /\ Chk("number density per area", Near(d.nd2, NumberDensityCm2(m)))
         /\ Chk("number densities of constituents", \A k \in 1..N(m) : Near(d.ndi[k], NumberDensityOf(m, k)))
         /\ Chk("number densities of constituents per area", \A k \in 1..N(m) : Near(d.nd2i[k], NumberDensityCm2Of(m, k))))
AllShown(e) == \A d \in DOMAIN ms' : Shows(ms'[d], e.r.m[d + 1])

List(e) == [k \in 1..Len(e.e) |-> Constituent(e.e[k][1], e.e[k][2], e.e[k][3])]
\* arguments left out have their standard values
Arg(e, from, v, std) == IF e.form >= from THEN v ELSE std
Act(e) ==
    CASE e.op = "m_reset" -> ms' = [d \in 0..(e.n - 1) |-> Empty]
      [] e.op = "m_new" -> New(e.d)
      [] e.op = "m_elem" -> Element(e.d, e.a, e.z, Arg(e, 1, e.rho, R("1e-5")), Arg(e, 2, e.th, Zero), Arg(e, 3, e.I, Zero))
      [] e.op = "m_list" -> FromList(e.d, List(e), Arg(e, 1, e.rho, R("1e-5")), Arg(e, 2, e.I, Zero), Arg(e, 3, e.mm, Zero))
      [] e.op = "m_copy" -> Copy(e.d, e.a)
      [] e.op = "m_add" -> AddElement(e.d, Constituent(e.a, e.z, e.stn))
      [] e.op = "m_calc" -> Calculate(e.d)
      [] e.op = "m_M" -> SetM(e.d, e.v)
      [] e.op = "m_rho" -> SetDensity(e.d, e.v)
      [] e.op = "m_th" -> SetThickness(e.d, e.v)
      [] e.op = "m_cm" -> SetLength(e.d, e.v)
      [] e.op = "m_I" -> SetI(e.d, e.v)
      [] e.op = "m_chain" -> ms' = [ms EXCEPT ![e.d].rho = e.rho, ![e.d].th = e.th, ![e.d].I = e.I]
Kind(m) == IF N(m) = 0 THEN "empty" ELSE IF AllByWeight(m.e) THEN "weights" ELSE IF \E k \in 1..N(m) : ByWeight(m.e[k]) THEN "mixed" ELSE "counts"
\* number density of a constituent that does not exist
None(e) ==
    LET m == ms[e.d] k == e.i + 1 IN
    /\ Chk("constituent", IF k \in 1..N(m) THEN Near(e.r.a, NumberDensityOf(m, k)) /\ Near(e.r.b, NumberDensityCm2Of(m, k))
                          ELSE RIsZero(e.r.a) /\ RIsZero(e.r.b))
    /\ UNCHANGED ms
    /\ Label(<<"constituent", k \in 1..N(m)>>)
Step(e) ==
    IF e.op = "begin" THEN ms' = <<>>
    ELSE IF e.op = "m_nd" THEN None(e)
    ELSE /\ Act(e) /\ AllShown(e)
         /\ Label(<<e.op, IF "d" \in DOMAIN e THEN Kind(ms'[e.d]) ELSE "">>)
Init0 == TraceInit /\ ms = <<>>
TNext == Advance /\ Step(Event)
=============================================================================
