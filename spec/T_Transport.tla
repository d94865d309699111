---------------------------- MODULE T_Transport ----------------------------
(* recorded transport calculations (P06 - P09, P11, P12, P19, P20, P28, P30, P31) *)
EXTENDS TraceBase, Transport

Fields == {"Ein", "Eout", "Eloss", "range", "dEdxi", "dEdxo", "sigma_E", "sigma_a", "sigma_r", "sigma_x", "cov", "tof", "sp"}
Survives(e) == "sp" \in DOMAIN e
\* a material of an event: constituents or the identifier of a predefined one
Mat(j) == IF "id" \in DOMAIN j
          THEN [Predefined(j.id) EXCEPT !.th = j.th, !.rho = IF Len(j.rho) = 0 THEN @ ELSE j.rho]
          ELSE MatOf(j)

-----------------------------------------------------------------------------
(* energy balance and stopping (P06) *)
Balance(p, th, r, rangeOut) ==
    /\ Chk("outgoing energy bounded", NonNeg(r.Eout) /\ r.Eout \preceq r.Ein)
    /\ Chk("energy loss is the difference", SameAbs(r.Eloss, (r.Ein (-) r.Eout) (.) p.A, Zero))
    /\ Chk("stopped exactly when the material is thicker than the range",
           ~REq(th, Zero) => (REq(r.Eout, Zero) <=> Stops(r.range, th)))
    /\ Chk("range in minus range out is the thickness",
           (Pos(r.Eout) /\ ~REq(th, Zero)) =>
               RClose(r.range (-) rangeOut, th, R("1e-12"), (EoutEps (.) R("1.000001")) (+) (R("1e-13") (.) r.range)))

LCalcBal(e) ==
    LET r == e.r.res  case == SlabCase(e.p[4], e.m.th, r.Eout) IN
    /\ Balance(ProjOf(e.p), e.m.th, r, IF "ro" \in DOMAIN e.r THEN e.r.ro ELSE Zero)
    /\ Chk("a transmitted projectile is above the lowest energy", Pos(r.Eout) => EZero \preceq r.Eout)
    /\ Label(<<"balance", case>>)

(* every field of a result (P07) *)
SlabOf(e) ==
    LET p == ProjOf(e.p)  r == e.r.res  th == e.m.th  case == SlabCase(p.T, th, r.Eout) IN
    [case |-> case, spec |-> SlabResult(case, p.A, CfgOf(e.c), r.Eout, e.r)]
SameField(f, x, y) ==
    CASE f \in {"sigma_E", "sigma_a"} -> (RIsNaN(x) /\ RIsNaN(y)) \/ RClose(x, y, R("1e-6"), R("1e-12"))
      [] f = "sp" -> RClose(x, y, R("1e-7"), Zero)
      [] OTHER -> (RIsNaN(x) /\ RIsNaN(y)) \/ Same(x, y)
LCalcFull(e) ==
    LET p == ProjOf(e.p)  r == e.r.res  s == SlabOf(e)
        fs == IF Survives(r) THEN Fields ELSE Fields \ {"sp"} IN
    /\ \A f \in fs : Chk(<<s.case, f>>, SameField(f, r[f], s.spec[f]))
    /\ (s.case /= "below" =>
          /\ Balance(p, e.m.th, r, IF "o" \in DOMAIN e.r THEN e.r.o.range ELSE Zero)
          /\ Chk("outgoing energy equals the dedicated function", s.case = "empty" \/ e.r.eout = r.Eout)
          /\ Chk("range positive", EZero \prec p.T => Pos(r.range))
          /\ Chk("stopping power positive", Pos(r.dEdxi)))
    /\ (s.case \in {"thin", "thick"} => Chk("energy straggling of the energies",
          s.case = "thin" \/ (RIsNaN(e.r.es) /\ RIsNaN(r.sigma_E)) \/ RClose(e.r.es, r.sigma_E, R("1e-6"), R("1e-12"))))
    /\ (s.case = "stopped" /\ Survives(r) => Chk("survival undefined when stopped", REq(r.sp, R(-1))))
    /\ ("finite" \in DOMAIN e =>
          \A f \in fs : Chk(<<"finite and not negative", s.case, f>>,
              RFinite(r[f]) /\ (NonNeg(r[f]) \/ (f = "sp" /\ REq(r[f], R(-1))))))
    /\ Chk("survival is a probability or undefined", Survives(r) => REq(r.sp, R(-1)) \/ (NonNeg(r.sp) /\ r.sp \preceq One))
    /\ Label(<<"slab", s.case, e.c[5], IF Survives(r) THEN REq(r.sp, R(-1)) ELSE FALSE>>)

-----------------------------------------------------------------------------
(* stacks (P09, P12) *)
Ps(e) == [x |-> e.ps[1], a |-> e.ps[2], c |-> e.ps[3]]
SameResult(r, s) == \A f \in DOMAIN r : r[f] = s[f] \/ (RIsNaN(r[f]) /\ RIsNaN(s[f]))
ResultOf(r) == IF Survives(r) THEN r ELSE [f \in Fields |-> IF f = "sp" THEN One ELSE r[f]]
LChain(e) ==
    LET n == Len(e.ls)  L == e.r.multi.l  t == e.r.multi.t
        rs == [k \in 1..n |-> ResultOf(L[k])]
        s == Stack(e.p[4], Ps(e), rs, e.r.cm)
        moving == EZero \prec s.e
    IN
    /\ Chk("one result per layer", Len(L) = n)
    /\ \A k \in 1..n : Chk(<<"layer equals the separate calculation", k>>, SameResult(L[k], e.r.single[k]))
    /\ \A k \in 1..n : Chk(<<"energies are chained", k>>,
            LET before == IF k = 1 THEN e.p[4] ELSE L[k-1].Eout IN
            L[k].Ein = before \/ (BelowThreshold(before) /\ REq(L[k].Ein, Zero)))
    /\ \A k \in 2..n : Chk(<<"stays stopped", k>>,
            REq(L[k-1].Eout, Zero) => \A f \in {"Eout", "Eloss", "sigma_E", "sigma_a", "tof", "range", "sigma_x", "cov"} : REq(L[k][f], Zero))
    /\ Chk("total incoming energy", t.Ein = e.p[4])
    /\ Chk("total outgoing energy", t.Eout = s.e)
    /\ Chk("total energy loss", SameAbs(t.Eloss, s.Eloss, R("1e-12")))
    /\ Chk("total flight time", SameAbs(t.tof, s.tof, Zero))
    /\ Chk("total energy straggling", IF moving THEN Same(Sq(t.sigma_E), s.varE) \/ RIsNaN(s.varE) ELSE REq(t.sigma_E, Zero))
    /\ Chk("total angular straggling", IF moving THEN Same(Sq(t.sigma_a), s.varA) \/ RIsNaN(s.varA) ELSE REq(t.sigma_a, Zero))
    /\ Chk("total covariance", RIsNaN(s.cov) \/ RClose(t.cov, s.cov, R("1e-7"), R("1e-16")))
    /\ Chk("total position spread", RIsNaN(s.varX) \/ RClose(Sq(t.sigma_x), RAbs(s.varX), R("1e-6"), R("1e-16")))
    /\ Chk("total survival", Survives(t) => Same(t.sp, s.sp))
    /\ Label(<<"chain", IF n > 3 THEN 3 ELSE n, moving, \E k \in 1..n : REq(e.ls[k].th, Zero),
               IF Survives(t) THEN Undefined(t.sp) ELSE FALSE>>)

-----------------------------------------------------------------------------
(* relations between several queries: e.cmds and their results e.r.rs *)
Q(e, k) == e.r.rs[k]
Num(e) == Len(e.cmds)
\* a slab cut in pieces: cmds[1] is the whole, the others are stacks of pieces (P11, P12, P20)
LCut(e) ==
    LET w == Q(e, 1).t IN
    \A k \in 2..Num(e) : LET t == Q(e, k).t  pieces == R(Len(e.cmds[k].ls)) IN
      /\ Chk("same stop decision", REq(t.Eout, Zero) <=> REq(w.Eout, Zero))
      \* each piece may be off by the tolerance of the solver
      /\ Chk("same outgoing energy", LET d == RMax(w.dEdxo, e.dedx) IN
             RClose(t.Eout, w.Eout, R("1e-6"), (R(2) (.) pieces) (.) ((EoutEps (.) e.dedx) (/) e.p[1])))
      /\ Chk("same energy loss", RClose(t.Eloss, w.Eloss, R("1e-6"), (R(2) (.) pieces) (.) (EoutEps (.) e.dedx)))
      /\ Chk("same survival", Survives(w) =>
             /\ Undefined(t.sp) <=> Undefined(w.sp)
             /\ (Undefined(w.sp) \/ RClose(RLog(t.sp), RLog(w.sp), R("0.025"), R("1e-3"))))
      /\ Chk("same flight time", Pos(w.Eout) =>
             LET slow == Beta(RMin(w.Eout, t.Eout)) IN
             RClose(t.tof, w.tof, e.toltof, (R(20) (.) (pieces (.) EoutEps)) (/) (CLight (.) (e.cmds[1].ls[1].rho (.) slow))))
      /\ Chk("same position spread", (Pos(w.Eout) /\ e.ang = 1) => RClose(t.sigma_x, w.sigma_x, e.tolx, Zero))
      /\ Chk("same angle spread", (Pos(w.Eout) /\ e.ang = 1) => RClose(t.sigma_a, w.sigma_a, e.tola, Zero))
      /\ Chk("same covariance", (Pos(w.Eout) /\ e.ang = 1) => RClose(t.cov, w.cov, e.tolx (.) R(2), Zero))
\* layers without thickness have no effect: bit-identical totals (P11)
LEmptyLayers(e) ==
    \A k \in 2..Num(e) : \A f \in DOMAIN Q(e, 1).t :
        Chk(<<"empty layers have no effect", f>>, Q(e, k).t[f] = Q(e, 1).t[f] \/ Same(Q(e, k).t[f], Q(e, 1).t[f]) \/ RIsNaN(Q(e, 1).t[f]))

Increasing(e, strict, f(_)) ==
    \A k \in 2..Num(e) : IF strict THEN f(k - 1) \prec f(k) ELSE f(k - 1) \preceq f(k)
\* allowance for the solver in the outgoing energy
SolverSlack(e, d) == ((R("2.2") (.) EoutEps) (.) d) (/) e.p[1]
Steeper(e, k) == RMax(Q(e, k).dEdxo, Q(e, k-1).dEdxo)
LMonotone(e) ==
    CASE e.why = "range" -> Chk("range grows with energy", Increasing(e, TRUE, LAMBDA k : Q(e, k).v))
      [] e.why = "variance" -> Chk("range variance grows with energy", Increasing(e, FALSE, LAMBDA k : Q(e, k).v))
      [] e.why = "thickness" ->
            /\ Chk("outgoing energy does not grow with thickness",
                   \A k \in 2..Num(e) : Q(e, k).Eout \preceq (Q(e, k-1).Eout (+) SolverSlack(e, Steeper(e, k))))
            /\ Chk("energy loss does not fall with thickness",
                   \A k \in 2..Num(e) : (Q(e, k-1).Eloss (-) (SolverSlack(e, Steeper(e, k)) (.) e.p[1])) \preceq Q(e, k).Eloss)
            /\ Chk("survival does not grow with thickness",
                   \A k \in 2..Num(e) : Survives(Q(e, k)) => (Undefined(Q(e, k).sp) \/ Q(e, k).sp \preceq (Q(e, k-1).sp (+) R("2e-3"))))
            /\ Chk("survival stays undefined", \A k \in 2..Num(e) : Survives(Q(e, k)) => (Undefined(Q(e, k-1).sp) => Undefined(Q(e, k).sp)))
            /\ Chk("flight time does not fall with thickness",
                   e.tof = 1 => \A k \in 2..Num(e) : Pos(Q(e, k).Eout) => Q(e, k-1).tof \preceq ((Q(e, k).tof (.) R("1.0001")) (+) e.toftol))
      [] e.why = "energy" ->
            Chk("outgoing energy does not fall with incoming energy",
                \A k \in 2..Num(e) : Q(e, k-1).Eout \preceq (Q(e, k).Eout (+) SolverSlack(e, Steeper(e, k))))

\* call forms that must give identical answers (P19)
Bits(x, y) == x = y
LSame(e) == \A k \in 2..Num(e) : Chk(<<"identical", e.why, k>>, Bits(Q(e, k), Q(e, 1)))
\* cmds[1] a single result, cmds[2] a stack of one layer
LOneLayer(e) == \A f \in DOMAIN Q(e, 1) : Chk(<<"layer of a stack", f>>, Q(e, 2).l[1][f] = Q(e, 1)[f])
\* cmds[1] the batch, the others the single queries
LBatch(e) ==
    /\ Chk("batch length", Len(Q(e, 1).v) = Len(e.cmds[1].T))
    /\ \A k \in 2..Num(e) :
         Chk(<<"batch element", e.why, k - 1>>,
             IF e.cmds[k].p[4] \prec EZero THEN REq(Q(e, 1).v[k-1], Zero) ELSE Q(e, 1).v[k-1] = Q(e, k).v)
    /\ Label(<<"batch", e.why, Num(e) = 1>>)
\* cmds[1] magnification, cmds[2] outgoing energies at 0.99, 1 and 1.01 of the energy (P30)
LMagnification(e) ==
    LET T == e.cmds[1].p[4]  A == e.cmds[1].p[1]  v == Q(e, 2).v  w == Q(e, 1)
        T1 == e.cmds[2].T[1]  T3 == e.cmds[2].T[3]
        none == e.cmds[1].m.th \preceq Zero
        stops == \E k \in 1..3 : v[k] \preceq Zero
        P(x) == Momentum(x, A) IN
    /\ IF none THEN Chk("magnification is one without material", REq(w.e, One) /\ REq(w.p, One))
       ELSE IF stops THEN Chk("magnification is zero when the beam stops", REq(w.e, Zero) /\ REq(w.p, Zero))
       ELSE /\ Chk("energy magnification", RClose(w.e, ((v[3] (-) v[1]) (.) T) (/) (v[2] (.) (T3 (-) T1)), R("1e-6"), Zero))
            /\ Chk("momentum magnification",
                   RClose(w.p, ((P(v[3]) (-) P(v[1])) (.) P(T)) (/) (P(v[2]) (.) (P(T3) (-) P(T1))), R("1e-6"), Zero))
    /\ Label(<<"magnification", none, stops>>)

Relation(e) ==
    CASE e.rel = "cut" -> LCut(e) /\ Label(<<"cut", REq(Q(e, 1).t.Eout, Zero)>>)
      [] e.rel = "emptylayers" -> LEmptyLayers(e) /\ Label(<<"emptylayers">>)
      [] e.rel = "monotone" -> LMonotone(e) /\ Label(<<"monotone", e.why>>)
      [] e.rel = "same" -> LSame(e) /\ Label(<<"same", e.why>>)
      [] e.rel = "onelayer" -> LOneLayer(e) /\ Label(<<"onelayer">>)
      [] e.rel = "batch" -> LBatch(e)
      [] e.rel = "magnification" -> LMagnification(e)

-----------------------------------------------------------------------------
(* tabulated quantities as integrals (P28) *)
Close3(x, y, rel) == RClose(x, y, rel, Zero)
LTable(e) ==       \* T[1] < T[2] neighbouring grid points, or a wider interval divided in n parts
    LET p == ProjOf(e.p)  m == Mat(e.m)  c == CfgOf(e.c)  a == e.T[1]  b == e.T[2]
        I(f(_)) == IntegrateParts(Rule8, f, a, b, e.n)
        Diff(s) == s[2] (-) s[1]
        slack(s) == R("1e-13") (.) RAbs(s[2])        \* rounding of the difference
    IN
    /\ Chk("range is the integral of the inverse stopping power",
           RClose(Diff(e.r.r), I(LAMBDA T : RangeIntegrand(p, m, c, T)), e.tol, slack(e.r.r)))
    /\ Chk("range variance is the integral of straggling over stopping power cubed",
           RClose(Diff(e.r.v), I(LAMBDA T : VarIntegrand(p, m, c, T)), e.tol, slack(e.r.v)))
    /\ Chk("angular variance is the integral of scattering over stopping power",
           RClose(Diff(e.r.a), I(LAMBDA T : AngIntegrand(p, m, c, T)), e.tol, slack(e.r.a)))
    /\ (e.dtol /= <<>> => Chk("stopping power from the range table",
           \A k \in 1..2 : RClose(e.r.d[k], Dedx(At(p, e.T[k]), m, c), e.dtol, Zero)))
    /\ Label(<<"table", e.n = 1, Regime(a), Regime(b), c.calc, c.scat>>)
LTof(e) ==
    LET p == ProjOf(e.p)  m == Mat(e.m)  c == CfgOf(e.c) IN
    /\ Chk("flight time is the integral of the inverse velocity over stopping power",
           RClose(e.r.v, IntegrateParts(Rule8, LAMBDA T : TofIntegrand(p, m, c, T), e.T2, p.T, e.n), e.tol, Zero))
    /\ Label(<<"tof", Regime(e.T2), Regime(p.T)>>)
LTofTable(e) ==
    LET p == ProjOf(e.p)  m == Mat(e.m)  c == CfgOf(e.c) IN
    /\ Chk("length of the flight time table", e.r.n = 600)
    /\ (e.k[1] = 0 => Chk("flight time table starts at zero", RAbs(e.r.v[1]) \preceq (R("1e-9") (.) e.r.v[2])))
    /\ Chk("flight time table is the integral",
           RClose(e.r.v[2] (-) e.r.v[1], IntegrateParts(Rule8, LAMBDA T : TofIntegrand(p, m, c, T), e.r.e[1], e.r.e[2], 1), R("1e-5"), R("1e-13") (.) e.r.v[2]))

(* moments of the scattering in a layer (P31); energies at the points x *)
LMoments(e) ==
    LET p == ProjOf(e.p)  m == Mat(e.m)  c == CfgOf(e.c)
        L == RMin(e.r.range, m.th) (/) m.rho
        xs == Points(Rule8, Zero, L)
        Mom(n) == Moment(p, m, c, L, e.r.e, n) IN
    /\ Chk("depths of the event", \A k \in 1..8 : RClose(xs[k] (.) m.rho, e.x[k], R("1e-9"), Zero))
    /\ Chk("angular variance of the layer", RClose(e.r.m0, Mom(0), R("1e-5"), Zero))
    /\ Chk("covariance of the layer", RClose(e.r.m1, Mom(1), R("1e-5"), Zero))
    /\ Chk("position variance of the layer", RClose(e.r.m2, Mom(2), R("1e-5"), Zero))
    /\ Chk("angular straggling is its root", RIsNaN(e.r.s) \/ Same(Sq(e.r.s), e.r.m0))
    /\ Chk("moment inequality", c.scat \in {DHighland, Gottschalk} \/ Sq(e.r.m1) \preceq ((e.r.m0 (.) e.r.m2) (.) R("1.000001")))
    /\ Label(<<"moments", c.scat, Stops(e.r.range, m.th)>>)

(* survival (P20) *)
LSurvival(e) ==
    LET p == ProjOf(e.p)  m == Mat(e.m)
        defined == SurvivalDefined(p.T, e.r.eout) IN
    /\ IF m.th \preceq Zero /\ EminReaction \preceq p.T THEN Chk("survival is one without material", REq(e.r.v, One))
       ELSE /\ Chk("survival is undefined exactly below the reaction limit", defined <=> ~REq(e.r.v, R(-1)))
            /\ (defined => /\ Chk("survival is a probability", NonNeg(e.r.v) /\ e.r.v \preceq One)
                           /\ Chk("survival follows the cross section",
                                  LET x == SurvivalExponents(p, m, e.r.eout, e.r.e)
                                      slack == RMin(R("0.5"), R("1e-6") (+) (x[2] (.) R("1e-3")))
                                      lo == RExp(RNeg(x[2]))  hi == RExp(RNeg(x[1])) IN
                                  /\ e.r.v \preceq hi \/ RClose(e.r.v, hi, slack, R("1e-300"))
                                  /\ lo \preceq e.r.v \/ RClose(e.r.v, lo, slack, R("1e-300"))))
    /\ Label(<<"survival", m.th \preceq Zero, defined, N(m) > 1, AllByWeight(m.e),
               IF defined THEN (RAbs(SigmaMat(p, m, p.T) (-) SigmaMat(p, m, e.r.eout)) (/) SigmaMat(p, m, p.T)) \prec R("0.05") ELSE FALSE>>)

(* dedicated straggling functions of energies (P31, P07) *)
LFromE(e) ==      \* cmds: angular straggling from energies, angular straggling of the thickness
    Chk("angular straggling of energies equals that of the thickness",
        RClose(Q(e, 1).v, Q(e, 2).v, R("1e-4"), Zero) \/ (RIsNaN(Q(e, 1).v) /\ RIsNaN(Q(e, 2).v)))

Step(e) ==
    CASE e.op = "calc_bal" -> LCalcBal(e)
      [] e.op = "calc_full" -> LCalcFull(e)
      [] e.op = "chain" -> LChain(e)
      [] e.op = "tab2" -> LTable(e)
      [] e.op = "tof_E" -> LTof(e)
      [] e.op = "tof_v" -> LTofTable(e)
      [] e.op = "moments" -> LMoments(e)
      [] e.op = "survival" -> LSurvival(e)
      [] e.op = "seq" -> IF e.rel = "fromE" THEN LFromE(e) /\ Label(<<"fromE">>) ELSE Relation(e)
Next == Advance /\ Step(Event)
=============================================================================
