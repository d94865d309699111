----------------------------- MODULE Transport -----------------------------
(***************************************************************************)
(* Passage of a projectile through one slab and through a stack of slabs.  *)
(*                                                                         *)
(* A slab is described by what the library tabulates for the combination:  *)
(* range, stopping power, range variance and angular variance (with their  *)
(* derivatives) at the energies before (i) and after (o) the slab.         *)
(***************************************************************************)
EXTENDS Physics, Quadrature

BelowThreshold(T) == T \prec EZero
\* the cases of a slab; Eout is the energy behind it
SlabCase(T, th, Eout) ==
    IF BelowThreshold(T) THEN "below"
    ELSE IF REq(th, Zero) THEN "empty"
    ELSE IF Eout \prec EZero THEN "stopped"
    ELSE IF (ThinLimit (.) T) \prec Eout THEN "thin"
    ELSE "thick"

Stops(range, th) == range \preceq th

NoResult == [Ein |-> Zero, Eout |-> Zero, Eloss |-> Zero, range |-> Zero, dEdxi |-> Zero, dEdxo |-> Zero,
             sigma_E |-> Zero, sigma_a |-> Zero, sigma_r |-> Zero, sigma_x |-> Zero, cov |-> Zero, tof |-> Zero, sp |-> One]

(* energy and angular straggling of a transmitted projectile *)
SigmaE(case, A, i, o) ==
    LET v == IF case = "thin" THEN (i.T (-) o.T) (.) ((i.dvar (+) o.dvar) (/) R(2)) ELSE i.var (-) o.var
    IN (o.dedx (.) RSqrt(v)) (/) A
SigmaA(case, i, o) ==
    RSqrt(IF case = "thin" THEN (i.T (-) o.T) (.) ((i.dang (+) o.dang) (/) R(2)) ELSE i.ang (-) o.ang)

(* the result of a slab from the tabulated quantities.                     *)
(* q: i, o - quantities before and behind, x2, xa, a2 - moments of the     *)
(* scattering in the slab, tof - flight time, sp - survival                *)
SlabResult(case, A, c, Eout, q) ==
    IF case = "below" THEN NoResult
    ELSE LET in == [NoResult EXCEPT !.Ein = q.i.T, !.range = q.i.range, !.dEdxi = q.i.dedx, !.sigma_r = q.i.str] IN
         CASE case = "empty" -> [in EXCEPT !.Eout = q.i.T, !.dEdxo = q.i.dedx]
           [] case = "stopped" -> [in EXCEPT !.Eout = Eout, !.Eloss = (q.i.T (-) Eout) (.) A,
                                             !.sigma_x = RSqrt(q.x2), !.cov = q.xa, !.sp = q.sp]
           [] OTHER -> [in EXCEPT !.Eout = Eout, !.Eloss = (q.i.T (-) Eout) (.) A,
                                  !.dEdxo = q.o.dedx,
                                  !.sigma_E = SigmaE(case, A, q.i, q.o),
                                  !.sigma_a = IF c.scat = AtimaScat THEN SigmaA(case, q.i, q.o) ELSE RSqrt(q.a2),
                                  !.sigma_x = RSqrt(q.x2), !.cov = q.xa, !.tof = q.tof, !.sp = q.sp]

-----------------------------------------------------------------------------
(* totals of a stack: a fold over the results of its slabs.                *)
(* Variances are accumulated; position and angle drift through the slab    *)
(* before its own scattering is added.                                     *)
StackStart(T, ps) == [e |-> T, Eloss |-> Zero, varE |-> Zero, varA |-> Sq(ps.a), varX |-> Sq(ps.x), cov |-> ps.c,
                      tof |-> Zero, sp |-> One]
Undefined(s) == s \prec Zero
Drift(b, L) == [varX |-> (b.varX (+) ((R(2) (.) L) (.) b.cov)) (+) (Sq(L) (.) b.varA),
                cov |-> b.cov (+) (b.varA (.) L),
                varA |-> b.varA]
StackStep(s, r, L) ==
    LET d == Drift(s, L) IN
    [e |-> r.Eout,
     Eloss |-> s.Eloss (+) r.Eloss,
     varE |-> s.varE (+) Sq(r.sigma_E),
     varA |-> d.varA (+) Sq(r.sigma_a),
     varX |-> d.varX (+) Sq(r.sigma_x),
     cov |-> d.cov (+) r.cov,
     tof |-> s.tof (+) r.tof,
     sp |-> IF Undefined(s.sp) \/ Undefined(r.sp) THEN R(-1) ELSE s.sp (.) r.sp]
RECURSIVE StackFrom(_, _, _, _)
StackFrom(s, rs, Ls, k) == IF k > Len(rs) THEN s ELSE StackFrom(StackStep(s, rs[k], Ls[k]), rs, Ls, k + 1)
Stack(T, ps, rs, Ls) == StackFrom(StackStart(T, ps), rs, Ls, 1)

-----------------------------------------------------------------------------
(* tabulated quantities as integrals of the local rates *)
At(p, T) == [p EXCEPT !.T = T]
RangeIntegrand(p, m, c, T) == p.A (/) Dedx(At(p, T), m, c)
VarIntegrand(p, m, c, T) == (p.A (.) StragglingMat(At(p, T), m, c)) (/) Cube(Dedx(At(p, T), m, c))
AngIntegrand(p, m, c, T) == (p.A (.) ScatRate(At(p, T), m, c)) (/) Dedx(At(p, T), m, c)
TofIntegrand(p, m, c, T) ==
    ((R(10) (.) p.A) (/) (CLight (.) m.rho)) (/) (Dedx(At(p, T), m, c) (.) Beta(T))

(* moments of the local scattering over the remaining distance, lengths in cm *)
LocalScat(p, m, c, E, x) ==
    LET highland == LET l == RLog((x (.) m.rho) (/) RadLengthMat(m)) IN
                    (R("0.97") (.) (One (+) (l (/) R("20.7")))) (.) (One (+) (l (/) R("22.7")))
    IN CASE c.scat = DHighland -> highland (.) ScatPower(At(p, E), RadLengthMat(m), Es2Rossi)
         [] c.scat = Gottschalk -> ScatPowerXs(At(p, E), m, PBeta(p.T, p.A), R(225))
         [] c.scat = FermiRossi -> ScatPower(At(p, E), RadLengthMat(m), Es2Rossi)
         [] OTHER -> ScatPower(At(p, E), RadLengthMat(m), Es2Atima)
\* E[k] energy at the k-th quadrature point of the path of length L
Moment(p, m, c, L, E, n) ==
    LET xs == Points(Rule8, Zero, L) IN
    (((c.sf (.) L) (/) R(2)) (.) m.rho) (.)
        RSum([k \in 1..8 |-> (Rule8[k][2] (.) IPow(L (-) xs[k], n)) (.) LocalScat(p, m, c, E[k], xs[k])])

(* survival: E0, E1 energies before and behind, E[k] at the quadrature points of the thickness *)
SurvivalDefined(T, Eout) == EminReaction \preceq T /\ EminReaction \preceq Eout
\* the average may be that of both ends where the cross section hardly changes: the exponents allowed
SurvivalExponents(p, m, E1, E) ==
    LET s0 == SigmaMat(p, m, p.T)
        s1 == SigmaMat(p, m, E1)
        ends == (s0 (+) s1) (/) R(2)
        mean == RSum([k \in 1..8 |-> (Rule8[k][2] (.) SigmaMat(p, m, E[k])) (/) R(2)])
        f == R("1e-4") (.) NumberDensityCm2(m) IN
    IF (RAbs(s0 (-) s1) (/) s0) \prec R("0.05") THEN <<f (.) RMin(ends, mean), f (.) RMax(ends, mean)>> ELSE <<f (.) mean, f (.) mean>>
=============================================================================
