----------------------------- MODULE T_Physics -----------------------------
(* recorded evaluations of the local physics (P14 - P18, P20, P29, P30) *)
EXTENDS TraceBase, Physics

\* energies at which a value is defined and finite
Val(name, e, x) == Chk(name, Same(e.r.v, x))
Cfg0 == [zeff |-> ZPierce, corr |-> 0, calc |-> 1, low |-> 0, scat |-> AtimaScat, sf |-> One]
C(e) == IF Len(e.c) = 0 THEN Cfg0 ELSE CfgOf(e.c)
Es(e) == IF Len(e.es) = 0 THEN Es2Atima ELSE e.es

LKin(e) ==
    LET T == e.T IN
    /\ Chk("gamma", Same(e.r.g, Gamma(T)))
    /\ Chk("beta", Same(e.r.b, Beta(T)))
    /\ Chk("momentum", Same(e.r.p, Momentum(T, e.A)))
    /\ Chk("beta below one", NonNeg(e.r.b) /\ e.r.b \preceq One)
    /\ Chk("gamma beta", SameAbs((Gamma(T) (.) e.r.b) (.) (AMU (.) e.A), e.r.p, Zero))
    /\ Chk("centre of mass", ~("ecm" \in DOMAIN e.r) \/ Same(e.r.ecm, EcmOf(T, e.A, e.At)))
    /\ Label(<<"kin", T \preceq One>>)

LZeff(e) ==
    LET p == ProjOf(e.p)  t == TgtOf(e.t)  c == C(e) IN
    /\ Val("effective charge", e, ZEffective(p, t, c))
    /\ Assert(c.zeff = ZGlobal => GlobalBuiltIn(p.Z, p.T), "needs an external library")
    /\ Label(<<"zeff", c.zeff, t.Z \in {1, 2, 4, 6}, p.T \prec R("2.5")>>)
(* limits of the formulas where they are valid *)
LZeffBound(e) ==
    LET p == ProjOf(e.p) IN
    /\ Chk("effective charge bounded", NonNeg(e.r.v) /\ e.r.v \preceq (p.Z (.) R("1.005")))
    /\ Chk("full charge at high velocity", R(10000) \prec p.T => Within(e.r.v, p.Z, R("3e-2")))
LZeffRaw(e) ==
    LET x == CASE e.k = 1 -> ZEffPierceBlann(e.z, e.x)
               [] e.k = 2 -> ZEffAnthony(e.z, e.x, e.tz)
               [] e.k = 3 -> ZEffHubert(e.z, e.x, e.tz)
               [] e.k = 4 -> ZEffWinger(e.z, e.x, e.tz)
               [] e.k = 5 -> ZEffSchiwietz(e.z, e.x, e.tz)
               [] e.k = 6 -> ZEffGlobal(e.z, e.x)
    IN Val(<<"formula", e.k>>, e, x) /\ Label(<<"zeff_raw", e.k>>)

LNuclearT(e) ==
    LET p == ProjOf(e.p)  t == TgtOf(e.t)  eps == ReducedEnergy(p, t) IN
    /\ Val("nuclear stopping", e, DedxN(p, t))
    /\ Chk("nuclear stopping positive", Pos(p.T) => Pos(e.r.v))
    /\ Label(<<"dedx_n", IF eps \preceq Zero THEN "none" ELSE IF eps \preceq R(30) THEN "low" ELSE "high">>)
LReduced(e) == Val("reduced energy", e, ReducedEnergy(ProjOf(e.p), TgtOf(e.t)))

LSrim(e) ==
    LET tab == IF e.v95 = 1 THEN Srim95 ELSE Srim85 IN
    /\ Val("low energy stopping", e, SrimSe(tab, e.pz, e.tz, e.T))
    /\ Chk("low energy stopping positive", RFinite(e.r.v) /\ Pos(e.r.v))
    /\ IF e.pz <= 2 THEN Label(<<"srim", e.v95, e.pz, RMul(e.T, 1000) \preceq R(25), e.tz > 6>>)
       ELSE LET h == HeavyIon(e.pz, e.tz, e.T) IN Label(<<"srim", e.v95, h.slow, h.fast, h.qcase, e.tz > 92, e.pz > 92>>)
LSezi(e) ==
    LET p == ProjOf(e.p)  m == MatOf(e.m)  c == C(e) IN
    Val("low energy stopping of a material", e, LowMat(p, m, c)) /\ Label(<<"sezi", c.low, N(m) > 1>>)

LBetheT(e) ==
    LET p == ProjOf(e.p)  t == TgtOf(e.t)  c == C(e)  eta == BetaGamma(p.T) IN
    /\ Val("relativistic stopping", e, BetheDedx(p, t, c, e.I))
    /\ Label(<<"bethe", c.corr, HighEnergy \prec p.T, eta \prec ShellLimit, Pos(e.I)>>)
LBetheM(e) ==
    LET p == ProjOf(e.p)  m == MatOf(e.m)  c == C(e) IN
    Val("relativistic stopping of a material", e, BetheMat(p, m, c)) /\ Label(<<"bethe_m", Pos(m.I), N(m) > 1>>)
LBarkas(e) ==
    LET v1 == (e.eta (.) InvAlpha) (/) RSqrt(e.tz) IN
    /\ Val("Barkas factor", e, Barkas(e.z, e.eta, e.tz))
    /\ Label(<<"barkas", IF v1 \prec One THEN 0 ELSE IF R(4) \preceq v1 THEN 4 ELSE RToInt(v1)>>)
BetaGammaOfBeta(b) == b (/) RSqrt(One (-) Sq(b))
LDensity(e) ==
    LET d == DensityTable[Min2(e.tz, 97)]
        x == RLog(BetaGammaOfBeta(e.b)) (/) R("2.3025851") IN
    /\ Chk("density effect", RClose(e.r.v, DensityEffect(BetaGammaOfBeta(e.b), e.tz), R("1e-6"), R("1e-6")))
    /\ Chk("density effect does not increase the stopping", R("-0.03") \preceq e.r.v)
    /\ Chk("density effect has no jump where it sets in", RClose(x, d[1], Zero, R("0.001")) => RClose(e.r.v, d[6], Zero, R("0.03")))
    /\ Label(<<"density", IF x \prec d[1] THEN (IF Pos(d[6]) THEN "conductor" ELSE "zero") ELSE IF x \preceq d[2] THEN "mid" ELSE "high", e.tz > 97>>)
LPair(e) == Val("pair production", e, PairProduction(ProjOf(e.p), TgtOf(e.t)))
LBrems(e) == Val("bremsstrahlung", e, Bremsstrahlung(ProjOf(e.p), TgtOf(e.t)))

LDedx(e) ==
    LET p == ProjOf(e.p)  m == MatOf(e.m)  c == C(e) IN
    /\ Val("stopping power", e, Dedx(p, m, c))
    /\ Label(<<"dedx", IF p.T \preceq Zero THEN "none" ELSE Regime(p.T), c.zeff, c.low, HighEnergy \prec p.T>>)
LNuclearM(e) == Val("nuclear stopping of a material", e, NuclearMat(ProjOf(e.p), MatOf(e.m)))

LFirsov(e) == Val("Firsov straggling", e, Firsov(e.z1, e.T, e.z2, e.m2))
LVariance(e) ==
    LET p == ProjOf(e.p)  t == TgtOf(e.t)  c == C(e) IN
    /\ Val("straggling rate", e, StragglingRate(p, t, c))
    /\ Label(<<"straggling", c.calc, p.T \prec R(30),
               IF p.T \prec R(30) THEN REq(StragglingRate(p, t, c), Firsov(p.Z, p.T, R(t.Z), t.A)) ELSE FALSE,
               p.T \prec One>>)
LVarianceM(e) == Val("straggling rate of a material", e, StragglingMat(ProjOf(e.p), MatOf(e.m), C(e)))

LScatT(e) ==
    LET p == ProjOf(e.p)  t == TgtOf(e.t) IN
    Val("scattering power", e, ScatPower(p, RadLength(t.Z, t.A), Es(e))) /\ Label(<<"scat_t", t.Z \in DOMAIN PdgRadLength, Len(e.es) = 0>>)
LScatM(e) == Val("scattering power of a material", e, ScatPower(ProjOf(e.p), RadLengthMat(MatOf(e.m)), Es(e)))
LScatXs(e) ==
    LET p == ProjOf(e.p)  m == MatOf(e.m) IN
    Val("corrected scattering power", e, ScatPowerXs(p, m, PBeta(e.T1, p.A), IF Len(e.es) = 0 THEN R(225) ELSE e.es))
LRadLen(e) == Val("radiation length", e, RadLength(e.z, e.a)) /\ Label(<<"radlen", e.z \in DOMAIN PdgRadLength>>)
LRadLenM(e) ==
    LET m == MatOf(e.m) IN
    /\ Chk("radiation length of a material", Same(e.r.x0, RadLengthMat(m)))
    /\ Chk("scattering length of a material", Same(e.r.xs, ScatLengthMat(m)))
LScatRate(e) ==
    LET c == C(e) IN Val("scattering rate", e, ScatRate(ProjOf(e.p), MatOf(e.m), c)) /\ Label(<<"da2dx", c.scat>>)

(* tabulated Lindhard corrections *)
LLs(e) ==
    LET p == ProjOf(e.p) IN
    Val("tabulated Lindhard correction", e, Lindhard(p)) /\ Label(<<"ls", p.T \prec One, RToInt(p.Z) > LsMaxZ>>)
LLsx(e) ==
    LET p == ProjOf(e.p) IN
    Val("tabulated Lindhard factor", e, LindhardX(p)) /\ Label(<<"lsx", p.T \prec One, RToInt(p.Z) > LsMaxZ>>)

LNodes(e, F(_)) ==
    /\ \A k \in DOMAIN e.T : Chk(<<"tabulated entry", k>>, SameAbs(e.r.v[k], F([A |-> e.A, Z |-> R(e.Z), T |-> e.T[k]]), R("1e-10")))
    /\ Label(<<"nodes", e.op>>)

(* table and direct calculation: close at the tabulated energies and masses,           *)
(* within the linear interpolations in energy and mass elsewhere                       *)
LsNode(T) == LET i == RToInt((RLog10(T) (/) LsStep) (+) R("0.5")) IN i \in 0..199 /\ RClose(T, LsEnergy(i), R("1e-12"), Zero)
LLsPair(e, want, what) ==
    LET p == ProjOf(e.p) z == RToInt(p.Z)
        natural == RClose(p.A, AtomicWeight(z), R("1e-12"), Zero) \/ RClose(p.A, R("1.05") (.) AtomicWeight(z), R("1e-12"), Zero)
        inside == z <= LsMaxZ /\ One \preceq p.T
                  /\ (what = "straggling" => p.T \preceq R("5e5"))     \* cancellations above
        tol == IF LsNode(p.T) THEN IF natural THEN <<R("1e-5"), IF what = "straggling" THEN R("1e-3") ELSE R("1e-5")>> ELSE <<R("1e-2"), R("1e-2")>>
               ELSE <<R("2e-2"), R("2e-2")>> IN
    /\ Chk(<<what, "table">>, SameAbs(e.r.t, want, R("1e-10")))
    /\ Chk(<<what, "direct">>, inside => RClose(e.r.t, e.r.d, tol[1], tol[2]))
    /\ Label(<<"pair", what, inside, LsNode(p.T), natural>>)

(* reactions *)
LKox(e) ==
    /\ Val("reaction cross section", e, Kox(e.ap, e.zp, e.T, e.at, e.zt))
    /\ Label(<<"kox", RLog10(e.T) \prec R("1.5")>>)
LProduction(e) ==
    \* the difference of two numbers close to one keeps their rounding
    /\ Chk("production rate", SameAbs(e.r.v, ProductionRate(e.cs, e.r1, e.r2, NumberDensityCm2(MatOf(e.m))),
                                       (R("1e-15") (.) e.cs) (/) RMax(R(5), RAbs(e.r2 (-) e.r1))))
    /\ Label(<<"production", RAbs(e.r2 (-) e.r1) \prec R(5)>>)
LRates(e) ==
    LET x == RExp(R("-1e-4") (.) (e.s (.) e.n)) IN
    /\ Chk("survival of a cross section", Same(e.r.n, x))
    /\ Chk("reaction probability", SameAbs(e.r.r, One (-) x, R("1e-14")))
    /\ Chk("reaction probability of a function", SameAbs(e.r.ri, One (-) x, R("1e-13")))

Local(e) ==
    CASE e.op \in {"kin", "kin_lib"} -> LKin(e)
      [] e.op = "kin_seq" -> \A f \in {"g", "b", "p"} : \A k \in 2..Len(e.T) :
                                 Chk(<<"kinematics grow with energy", f>>, e.T[k-1] \prec e.T[k] => e.r[f][k-1] \prec e.r[f][k])
      [] e.op = "zeff" -> LZeff(e) /\ ("bound" \in DOMAIN e => LZeffBound(e))
      [] e.op = "zeff_raw" -> LZeffRaw(e)
      [] e.op = "dedx_n_t" -> LNuclearT(e)
      [] e.op = "dedx_n_m" -> LNuclearM(e)
      [] e.op = "reduced" -> LReduced(e)
      [] e.op = "srim" -> LSrim(e)
      [] e.op = "sezi" -> LSezi(e)
      [] e.op = "bethe_t" -> LBetheT(e)
      [] e.op = "bethe_m" -> LBetheM(e)
      [] e.op = "barkas" -> LBarkas(e)
      [] e.op = "density" -> LDensity(e)
      [] e.op = "pair" -> LPair(e)
      [] e.op = "brems" -> LBrems(e)
      [] e.op = "dedx" -> LDedx(e)
      [] e.op = "firsov" -> LFirsov(e)
      [] e.op = "dedx_var" -> LVariance(e)
      [] e.op = "domega2dx" -> LVarianceM(e)
      [] e.op = "scat_t" -> LScatT(e)
      [] e.op = "scat_m" -> LScatM(e)
      [] e.op = "scat_xs" -> LScatXs(e)
      [] e.op = "radlen" -> LRadLen(e)
      [] e.op = "radlen_m" -> LRadLenM(e)
      [] e.op = "da2dx" -> LScatRate(e)
      [] e.op = "ls" -> LLs(e)
      [] e.op = "lsx" -> LLsx(e)
      [] e.op = "ls_nodes" -> LNodes(e, Lindhard)
      [] e.op = "lsx_nodes" -> LNodes(e, LindhardX)
      [] e.op = "ls_pair" -> LLsPair(e, Lindhard(ProjOf(e.p)), "stopping")
      [] e.op = "lsx_pair" -> LLsPair(e, LindhardX(ProjOf(e.p)), "straggling")
      [] e.op = "kox" -> LKox(e)
      [] e.op = "production" -> LProduction(e)
      [] e.op = "rates" -> LRates(e)

(* several evaluations related to each other *)
V(e, k) == e.r.rs[k].v
Related(e) ==
    CASE e.rel = "equal" ->          \* all evaluations agree
             \A k \in 2..Len(e.cmds) : Chk(<<"equal", e.why, k>>, Same(V(e, k), V(e, 1)))
      [] e.rel = "increasing" ->
             \A k \in 2..Len(e.cmds) : Chk(<<"increasing", e.why, k>>, V(e, k - 1) \prec V(e, k))
      [] e.rel = "continuous" ->     \* neighbouring arguments, neighbouring values
             \A k \in 2..Len(e.cmds) : Chk(<<"continuous", e.why, k>>, Within(V(e, k), V(e, 1), e.tol))
      [] e.rel = "ratio" ->          \* proportional with the given factors
             \A k \in 2..Len(e.cmds) : Chk(<<"proportional", e.why, k>>, Same(V(e, k), V(e, 1) (.) e.factors[k]))
Step(e) == IF e.op = "seq" THEN Related(e) /\ Label(<<"seq", e.why>>) ELSE Local(e)
Next == Advance /\ Step(Event)
=============================================================================
