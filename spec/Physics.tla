------------------------------ MODULE Physics ------------------------------
(***************************************************************************)
(* The local physics of the library: kinematics, effective charge,         *)
(* nuclear, low energy and relativistic stopping, energy straggling,       *)
(* scattering and reaction cross section, as functions of projectile       *)
(* p = [A, Z, Q, T], constituent t = [A, Z, stn], material m and           *)
(* configuration c = [zeff, corr, calc, low, scat, sf].                    *)
(***************************************************************************)
EXTENDS Composition

Srim85 == RTable("srim85.txt")
Srim95 == RTable("srim95.txt")
SrimIon == RTable("srim_ion.txt")            \* Fermi velocity, screening
DensityTable == RTable("density_effect.txt") \* x0 x1 a c m del0
LsA == RTable("ls_a.txt")
LsAhi == RTable("ls_ahi.txt")
LsxA == RTable("lsx_a.txt")
LsxAhi == RTable("lsx_ahi.txt")

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* kinematics; T in MeV/u *)
Gamma(T) == One (+) (T (/) AMU)
Beta2(T) == (T (.) (T (+) (R(2) (.) AMU))) (/) Sq(T (+) AMU)
Beta(T) == RSqrt(Beta2(T))
Momentum(T, A) == RSqrt(T (.) (T (+) (R(2) (.) AMU))) (.) A
BetaGamma(T) == RSqrt(T (.) (T (+) (R(2) (.) AMU))) (/) AMU
EcmOf(T, Ap, At) == ((T (.) Ap) (.) At) (/) (Ap (+) At)

-----------------------------------------------------------------------------
(* effective charge *)
P23(z) == RPow(z, R(2) (/) R(3))
ZEffPierceBlann(z, beta) ==
    z (.) (One (-) RExp(RNeg(((R("0.95") (.) InvAlpha) (.) beta) (/) P23(z))))
ZEffAnthony(z, beta, tz) ==
    LET B == R("1.18") (-) (tz (.) (R("7.5e-3") (-) (R("4.53e-5") (.) tz)))
        A == R("1.16") (-) (tz (.) (R("1.91e-3") (-) (R("1.26e-5") (.) tz)))
    IN z (.) (One (-) (A (.) RExp(RNeg(((InvAlpha (.) B) (.) beta) (/) P23(z)))))
ZEffHubert(z, E, tz) ==
    LET ltz == RLog(tz)
        x == IF REq(tz, R(4)) THEN
                <<R("2.045") (+) (R(2) (.) RExp(R("-0.04369") (.) z)), R(7), R("0.2643"), R("0.4171")>>
             ELSE IF REq(tz, R(6)) THEN
                <<R("2.584") (+) (R("1.91") (.) RExp(R("-0.03958") (.) z)), R("6.933"), R("0.2433"), R("0.3969")>>
             ELSE
                <<(R("1.164") (+) (R("0.2319") (.) RExp(R("-0.004302") (.) tz))) (+) (R("1.658") (.) RExp(R("-0.0517") (.) z)),
                  R("8.144") (+) (R("0.09876") (.) ltz),
                  R("0.314") (+) (R("0.01072") (.) ltz),
                  R("0.5218") (+) (R("0.02521") (.) ltz)>>
    IN IF E \prec R("2.5") THEN Zero
       ELSE z (.) (One (-) (x[1] (.) RExp(RNeg((x[2] (.) RPow(E, x[3])) (.) RPow(z, RNeg(x[4]))))))
ZEffWinger(z, beta, tz0) ==
    LET tz == IF REq(tz0, One) THEN R("2.6") ELSE IF REq(tz0, R(2)) THEN R("2.8") ELSE tz0
        x == (beta (/) R("0.012")) (/) RPow(z, R("0.45"))
        l == RLog(z)
        lt == RLog(tz)
        a0 == R("-0.4662")
        a1 == R("-0.5491") (.) RExp(((R("0.7028") (.) l) (-) (R("0.1089") (.) Sq(l))) (+) (R("0.001644") (.) Cube(l))
                                     (+) ((R("0.05633") (.) Sq(lt)) (-) (R("0.5155") (.) lt)))
        a2 == R("0.005447") (.) RExp((R("0.8795") (.) l) (-) (R("1.091") (.) lt))
        a3 == R("-0.0008261") (.) RExp((R("2.848") (.) l) (-) (R("0.2442") (.) Cube(l)))
        a4 == R("-0.00009293")
    IN z (.) (One (-) RExp(Poly(<<a0, a1, a2, a3, a4>>, x)))
ZEffSchiwietz(z, beta, tz) ==
    LET v == (RPow(z, R("-0.543")) (.) beta) (/) BohrVelocity
        c1 == One (-) ((R("0.26") (.) RExp(RNeg(tz (/) R(11)))) (.) RExp(RNeg(Sq(tz (-) z) (/) R(9))))
        c2 == One (+) ((R("0.030") (.) v) (.) RLog(tz))
        x == c1 (.) RPow((v (/) c2) (/) R("1.54"), One (+) (R("1.83") (/) z))
        x4 == Sq(Sq(x))
    IN (z (.) ((R("8.29") (.) x) (+) x4)) (/) ((R("0.06") (/) x) (+) R(4) (+) (R("7.4") (.) x) (+) x4)

\* the part which does not need an external library: z < 29, below 30 or above 2000 MeV/u
GlobalBuiltIn(z, E) == R(2000) \prec E \/ E \prec R(30) \/ z \prec R(29)
ZEffGlobal(z, E) == IF R(2000) \prec E THEN z ELSE ZEffPierceBlann(z, Beta(E))

ZEffective(p, t, c) ==
    LET tz == R(t.Z) beta == Beta(p.T) IN
    CASE c.zeff = ZNone -> p.Q
      [] c.zeff = ZPierce -> ZEffPierceBlann(p.Z, beta)
      [] c.zeff = ZAnthony -> ZEffAnthony(p.Z, beta, tz)
      [] c.zeff = ZHubert -> ZEffHubert(p.Z, p.T, tz)
      [] c.zeff = ZWinger -> ZEffWinger(p.Z, beta, tz)
      [] c.zeff = ZSchiwietz -> ZEffSchiwietz(p.Z, beta, tz)
      [] c.zeff = ZGlobal -> ZEffGlobal(p.Z, p.T)

-----------------------------------------------------------------------------
(* nuclear stopping *)
ZPow(z) == RPow(z, R("0.23"))
ReducedEnergy(p, t) ==
    ((R("32.53") (.) t.A) (.) ((R(1000) (.) p.T) (.) p.A))
        (/) ((p.Z (.) R(t.Z)) (.) ((p.A (+) t.A) (.) (ZPow(p.Z) (+) ZPow(R(t.Z)))))
NuclearReduced(eps) ==
    IF eps \preceq R(30) THEN
        RLog1p(R("1.1383") (.) eps)
            (/) (R(2) (.) (eps (+) (R("0.01321") (.) RPow(eps, R("0.21226"))) (+) (R("0.19593") (.) RSqrt(eps))))
    ELSE RLog(eps) (/) (R(2) (.) eps)
DedxN(p, t) ==
    LET eps == ReducedEnergy(p, t) IN
    IF eps \preceq Zero THEN Zero
    ELSE ((R("846.21") (.) ((p.Z (.) R(t.Z)) (.) p.A)) (.) (NuclearReduced(eps) (.) NAvogadro))
            (/) (((p.A (+) t.A) (.) (ZPow(p.Z) (+) ZPow(R(t.Z)))) (.) t.A)

-----------------------------------------------------------------------------
(* low energy electronic stopping, E in MeV/u, result in eV/(10^15 atoms/cm2) *)
ProtonSe(tab, tz, E) ==
    LET c == tab[Min2(tz, 92)]
        ekev == R(1000) (.) E
        e == RMax(ekev, R(25))
        sl == (c[1] (.) RPow(e, c[2])) (+) (c[3] (.) RPow(e, c[4]))
        sh == (c[5] (/) RPow(e, c[6])) (.) RLog((c[7] (/) e) (+) (c[8] (.) e))
        s == (sl (.) sh) (/) (sl (+) sh)
    IN IF ekev \preceq R(25) THEN s (.) RPow(ekev (/) R(25), IF tz > 6 THEN R("0.45") ELSE R("0.25")) ELSE s

HeliumScale(tz, E) ==
    LET e == RMax(R(1000) (.) E, One)
        b == RLog(e)
        a == Poly(<<R("0.2865"), R("0.1266"), R("-0.001429"), R("0.02402"), R("-0.01135"), R("0.001475")>>, b)
        h == One (-) RExp(RNeg(RMin(R(30), a)))
        d == R("7.6") (-) RMax(Zero, b)
        f == One (+) ((R("0.007") (+) (R("0.00005") (.) R(tz))) (.) RExp(RNeg(Sq(d))))
    IN (R(4) (.) h) (.) Sq(f)

YRMin == R("0.13")
HeavyIon(pz, tz, E) ==     \* effective charge and the branch
    LET e == R(1000) (.) E
        vf == SrimIon[Min2(tz, 92)][1]
        lam == SrimIon[Min2(pz, 92)][2]
        z == R(pz)
        z13 == One (/) RPow(z, One (/) R(3))
        z23 == Sq(z13)
        v == RSqrt(e (/) R(25)) (/) vf
        v2 == Sq(v)
        vr == IF One \preceq v THEN (v (.) vf) (.) (One (+) (R("0.2") (/) v2))
              ELSE ((R(3) (.) vf) (/) R(4)) (.) (One (+) (v2 (.) ((R(2) (/) R(3)) (-) (v2 (/) R(15)))))
        yr == RMax(RMax(YRMin, vr (.) z23), z23)
        a == ((R("1.3167") (.) RPow(yr, R("0.6"))) (-) (R("0.803") (.) RPow(yr, R("0.3"))))
                (+) ((R("0.38157") (.) yr) (+) (R("0.008983") (.) Sq(yr)))
        q == RMin(One, RMax(Zero, One (-) RExp(RNeg(RMin(a, R(50))))))
        b == RMin(R("0.43"), RMax(R("0.32"), R("0.12") (+) (R("0.025") (.) z))) (.) z13
        l0 == (R("0.8") (-) (q (.) RMin(R("1.2"), R("0.6") (+) (z (/) R(30))))) (.) z13
        q1 == RMax(Zero, R("0.9") (-) (R("0.025") (.) z))
        z16 == R("0.025") (.) RMin(R(16), z)
        q2 == RMax(Zero, One (-) z16)
        l1 == IF q \prec R("0.2") THEN Zero
              ELSE IF q \prec q1 THEN (b (.) (q (-) R("0.2"))) (/) RAbs(q1 (-) R("0.2000001"))
              ELSE IF q \prec q2 THEN b
              ELSE (b (.) (One (-) q)) (/) z16
        l == RMax(l1, l0 (.) lam)
        h1 == ((R(4) (.) l) (.) vf) (/) R("1.919")
        zeta0 == q (+) (((One (-) q) (/) (R(2) (.) Sq(vf))) (.) RLog1p(Sq(h1)))
        d == R("7.6") (-) RMax(Zero, RLog(e))
        zeta == zeta0 (.) (One (+) ((R("0.18") (+) (R("0.0015") (.) R(tz))) (.) (RExp(RNeg(Sq(d))) (/) Sq(z))))
        slow == yr \preceq RMax(YRMin, z23)
        vrmin == RMax(One, YRMin (/) z23)
        vmin == (vrmin (+) RSqrt(RMax(Zero, Sq(vrmin) (-) (R("0.8") (.) Sq(vf))))) (/) R(2)
        eee == R(25) (.) Sq(vmin)
        ex == IF tz = 6 \/ (tz \in {14, 32} /\ pz <= 19) THEN R("0.35") ELSE R("0.5")
    IN [charge2 |-> Sq(zeta (.) z),
        slow |-> slow,
        E |-> IF slow THEN eee (/) R(1000) ELSE E,
        f |-> IF slow THEN RPow(e (/) eee, ex) ELSE One,
        qcase |-> IF q \prec R("0.2") THEN 1 ELSE IF q \prec q1 THEN 2 ELSE IF q \prec q2 THEN 3 ELSE 4,
        fast |-> One \preceq v]
SrimSe(tab, pz, tz, E) ==
    CASE pz = 1 -> ProtonSe(tab, tz, E)
      [] pz = 2 -> ProtonSe(tab, tz, E) (.) HeliumScale(tz, E)
      [] OTHER -> LET h == HeavyIon(pz, tz, E) IN (ProtonSe(tab, tz, h.E) (.) h.charge2) (.) h.f
SrimTab(c) == IF c.low = 1 THEN Srim95 ELSE Srim85
LowDedx(p, t, c) ==       \* MeV/(g/cm2)
    ((R(100) (.) NAvogadro) (.) SrimSe(SrimTab(c), RToInt(p.Z), t.Z, p.T)) (/) t.A

-----------------------------------------------------------------------------
(* terms of the relativistic stopping formula *)
Barkas(zeff, eta, tz) ==
    LET v1 == (eta (.) InvAlpha) (/) RSqrt(tz)
        k == IF v1 \preceq R(2) THEN 1 ELSE IF v1 \preceq R(3) THEN 2 ELSE 3
        f == <<R("0.33"), R("0.30"), R("0.26"), R("0.23")>>
        v2 == IF R(4) \preceq v1 THEN R("0.45") (/) RSqrt(v1)
              ELSE IF One \preceq v1 THEN f[k] (+) ((v1 (-) R(k)) (.) (f[k+1] (-) f[k]))
              ELSE Zero
    IN One (+) (((R(2) (.) zeff) (.) v2) (/) (Sq(v1) (.) RSqrt(tz)))

DensityEffect(bg, tz) ==      \* bg = beta*gamma
    LET d == DensityTable[Min2(tz, 97)]
        x == RLog(bg) (/) R("2.3025851")
        lin == (R("4.6052") (.) x) (-) d[4]
    IN IF x \prec d[1] THEN
           (IF Pos(d[6]) THEN d[6] (.) RPow(R(10), R(2) (.) (x (-) d[1])) ELSE Zero)
       ELSE IF x \preceq d[2] THEN lin (+) (d[3] (.) RPow(d[2] (-) x, d[5]))
       ELSE lin

ShellLimit == R("0.13")
ShellTerm(eta, I) ==
    LET e2 == One (/) Sq(eta)  e4 == Sq(e2)  e6 == e4 (.) e2 IN
    (((R("0.422377") (.) e2) (+) (R("0.0304043") (.) e4) (-) (R("0.00038106") (.) e6)) (.) (R("1e-6") (.) Sq(I)))
    (+) (((R("3.858019") (.) e2) (-) (R("0.1667989") (.) e4) (+) (R("0.00157955") (.) e6)) (.) (R("1e-9") (.) Cube(I)))

(* tabulated Lindhard corrections: 200 logarithmic points from 1 to 1e7 MeV/u *)
LsMaxZ == 108
LsStep == R(7) (/) R(199)
LsEnergy(i) == RExp(LN10 (.) (R(i) (.) LsStep))
LsIndex(T) == LET i == RToInt(RFloor(RLog10(T) (/) LsStep)) IN IF i > 198 THEN 198 ELSE IF i < 0 THEN 0 ELSE i
LsInterpolate(row, T) ==
    LET i == LsIndex(T)  e0 == LsEnergy(i)  e1 == LsEnergy(i + 1)
        x == (T (-) e0) (/) (e1 (-) e0)
    IN (row[i + 1] (.) (One (-) x)) (+) (row[i + 2] (.) x)
LsRow(z) == IF z > LsMaxZ THEN LsMaxZ ELSE z
LsValue(lo, hi, p, T) ==
    LET z == LsRow(RToInt(p.Z))
        da == (p.A (-) AtomicWeight(z)) (/) AtomicWeight(z)
        v1 == LsInterpolate(lo[z], T)
        v2 == LsInterpolate(hi[z], T)
    IN v1 (+) ((v2 (-) v1) (.) (da (/) R("0.05")))
Lindhard(p) == LsValue(LsA, LsAhi, p, RMax(p.T, One))
LindhardX(p) == IF p.T \prec One THEN One ELSE LsValue(LsxA, LsxAhi, p, p.T)

HighEnergy == R(50000)
PairProduction(p, t) ==
    LET g == Gamma(p.T)
        d == One (/) RSqrt(g)
        ld == RLog(Sq(d))
        l0 == RLog(R(2) (.) g)
        z13 == R(183) (.) RPow(R(t.Z), RNeg(One (/) R(3)))
        screen == (R(19) (/) R(9)) (.) RLog(z13 (/) (One (+) ((R("25.018803808") (.) z13) (/) g)))
        pi2 == Sq(PI)
        L1 == ((R(4178) (/) (R(81) (.) pi2)) (-) (R(21) (/) R(27)))
              (+) ((((R(28) (.) l0) (/) R(9)) (-) (R(446) (/) R(27))) (.) (ld (/) pi2))
              (+) (((R(14) (.) Sq(ld)) (/) (R(9) (.) pi2)) (-) ((R(248) (.) l0) (/) (R(27) (.) pi2)))
        s == (((R("0.25") (.) KDedx) (.) Sq(Alpha)) (.) ((Sq(p.Z) (.) Sq(R(t.Z))) (.) g))
             (.) (((One (+) (One (/) R(t.Z))) (.) (screen (+) (L1 (.) d))) (/) t.A)
    IN RMax(s, Zero)
Bremsstrahlung(p, t) ==
    LET g == Gamma(p.T)
        third == One (/) R(3)
        rr == R("1.18") (.) (RPow(p.A, third) (+) RPow(t.A, third))
        L == RLog1p(((R(2) (.) g) (.) ((R("0.1") (.) HBar) (.) CLight)) (/) ((AMU (.) rr) (.) p.A))
        C == (KDedx (.) Alpha) (.) (MElectron (/) AMU)
    IN ((R(16) (.) C) (.) (g (.) (Sq(Sq(p.Z)) (.) (Sq(R(t.Z)) (.) L)))) (/) ((t.A (.) p.A) (.) (R(12) (.) PI))

BetheDedx(p, t, c, I0) ==
    LET g == Gamma(p.T)
        b2 == Beta2(p.T)
        eta == BetaGamma(p.T)
        zeff == ZEffective(p, t, c)
        I == IF Pos(I0) THEN I0 ELSE Ipot(t.Z)
        tz == R(t.Z)
        f1 == ((KDedx (.) Sq(zeff)) (.) tz) (/) (b2 (.) t.A)
        log0 == RLog(((R(2) (.) MElectron) (.) (R(1000000) (.) b2)) (/) I)
        shell == IF ~Bit(c.corr, NoShell) /\ ShellLimit \preceq eta THEN ShellTerm(eta, I) (/) tz ELSE Zero
        f2 == (log0 (-) shell) (+) ((R(2) (.) RLog(g)) (-) b2)
        bar == IF Bit(c.corr, NoBarkas) THEN One ELSE Barkas(zeff, eta, tz)
        ls == IF Bit(c.corr, NoLindhard) THEN Zero ELSE Lindhard(p)
        delta == DensityEffect(eta, t.Z)
        ion == f1 (.) ((f2 (.) bar) (+) ls (-) (delta (/) R(2)))
    IN IF HighEnergy \prec p.T /\ ~Bit(c.corr, NoHighEnergy)
       THEN ion (+) PairProduction(p, t) (+) Bremsstrahlung(p, t) ELSE ion

-----------------------------------------------------------------------------
(* total stopping power of a material *)
BetheMat(p, m, c) == WAverage(m, LAMBDA t : BetheDedx(p, t, c, m.I))
LowMat(p, m, c) == WAverage(m, LAMBDA t : LowDedx(p, t, c))
NuclearMat(p, m) == WAverage(m, LAMBDA t : DedxN(p, t))
Regime(T) == IF T \preceq R(10) THEN "low" ELSE IF T \prec R(30) THEN "blend" ELSE "bethe"
Blend(T) == (T (-) R(10)) (/) R(20)
Electronic(p, m, c) ==
    CASE Regime(p.T) = "low" -> LowMat(p, m, c)
      [] Regime(p.T) = "bethe" -> BetheMat(p, m, c)
      [] OTHER -> ((One (-) Blend(p.T)) (.) LowMat(p, m, c)) (+) (Blend(p.T) (.) BetheMat(p, m, c))
Dedx(p, m, c) == IF p.T \preceq Zero THEN Zero ELSE NuclearMat(p, m) (+) Electronic(p, m, c)

-----------------------------------------------------------------------------
(* energy straggling *)
Firsov(z1, T, z2, m2) ==
    ((R("4.8184e-3") (.) RPow(z1 (+) z2, R(8) (/) R(3))) (/) m2) (.) (Beta2(T) (.) Sq(InvAlpha))
ShellStraggling(T, tz) ==
    LET b2 == Beta2(T)  me == MElectron (.) R(1000000) IN
    RMax(Zero, ((R("24.89") (.) RPow(tz, R("1.2324"))) (/) (me (.) b2))
               (.) RLog(((R(2) (.) me) (.) b2) (/) (R("33.05") (.) RPow(tz, R("1.6364")))))
StragglingRate(p, t, c) ==
    LET f == ((KOmega (.) Sq(ZEffective(p, t, c))) (.) R(t.Z)) (/) t.A
        cor == IF c.calc = 0 THEN ShellStraggling(p.T, R(t.Z)) ELSE Zero
        s == f (.) ((LindhardX(p) (.) Sq(Gamma(p.T))) (+) cor)
    IN IF p.T \prec R(30) THEN RMin(s, Firsov(p.Z, p.T, R(t.Z), t.A)) ELSE s
StragglingMat(p, m, c) == WAverage(m, LAMBDA t : StragglingRate(p, t, c))

-----------------------------------------------------------------------------
(* scattering *)
PdgRadLength == [z \in {1,2,3,4,6,7,8,9,10,13,14,17,18,22,26,29,32,50,54,74,78,79,82,92} |->
    CASE z = 1 -> R("63.04") [] z = 2 -> R("94.32") [] z = 3 -> R("82.78") [] z = 4 -> R("65.19")
      [] z = 6 -> R("42.7") [] z = 7 -> R("37.99") [] z = 8 -> R("34.24") [] z = 9 -> R("32.93")
      [] z = 10 -> R("28.94") [] z = 13 -> R("24.01") [] z = 14 -> R("21.82") [] z = 17 -> R("19.28")
      [] z = 18 -> R("19.55") [] z = 22 -> R("16.16") [] z = 26 -> R("13.84") [] z = 29 -> R("12.86")
      [] z = 32 -> R("12.25") [] z = 50 -> R("8.82") [] z = 54 -> R("8.48") [] z = 74 -> R("6.76")
      [] z = 78 -> R("6.54") [] z = 79 -> R("6.46") [] z = 82 -> R("6.37") [] z = 92 -> R("6.00")]
RadLengthFormula(z, A) ==
    LET zz == R(z)
        z13 == One (/) RPow(zz, One (/) R(3))
        a2 == Sq(zz (.) Alpha)  a4 == Sq(a2)  a6 == a4 (.) a2
        coulomb == (R("1.202") (.) a2) (-) (R("1.0369") (.) a4) (+) ((R("1.008") (.) a6) (/) (One (+) a2))
    IN (R("716.405") (.) A) (/) (Sq(zz) (.) ((RLog(R("184.15") (.) z13) (+) (RLog(R(1194) (.) Sq(z13)) (/) zz)) (-) coulomb))
RadLength(z, A) == IF z \in DOMAIN PdgRadLength THEN PdgRadLength[z] ELSE RadLengthFormula(z, A)
RadLengthMat(m) == One (/) WAverage(m, LAMBDA t : One (/) RadLength(t.Z, t.A))
ScatLength(z, A) ==
    LET a == RTrunc(A)  zz == R(z) IN
    a (/) ((R("0.00034896") (.) Sq(zz)) (.) ((R(2) (.) RLog(R(33219) (.) RPow(a (.) zz, RNeg(One (/) R(3))))) (-) One))
ScatLengthMat(m) == One (/) WAverage(m, LAMBDA t : One (/) ScatLength(t.Z, t.A))

PBeta(T, A) == Momentum(T, A) (.) Beta(T)
ScatPower(p, X0, Es2) ==
    IF p.T \preceq Zero THEN Zero ELSE (Es2 (.) Sq(p.Z)) (/) (X0 (.) Sq(PBeta(p.T, p.A)))
ScatPowerXs(p, m, pb1, Es2) ==
    LET pb == PBeta(p.T, p.A)
        l1 == RLog10(One (-) Sq(pb (/) pb1))
        l2 == RLog10(pb)
        f == R("0.5244") (+) (R("0.1975") (.) l1) (+) (R("0.2320") (.) l2) (-) (R("0.0098") (.) (l1 (.) l2))
    IN f (.) ScatPower(p, ScatLengthMat(m), Es2)
Es2Of(c) == IF c.scat \in {DHighland, FermiRossi} THEN Es2Rossi ELSE Es2Atima
ScatRate(p, m, c) == c.sf (.) ScatPower(p, RadLengthMat(m), Es2Of(c))

-----------------------------------------------------------------------------
(* reactions: cross section in mb *)
KoxC1 == R(2) (-) (R(10) (/) R("7.59375"))
Kox(Ap, Zp, E, At, Zt) ==
    LET a == RPow(R(Ap), One (/) R(3))
        b == RPow(R(At), One (/) R(3))
        D == (R(5) (.) ((R(At) (-) (R(2) (.) R(Zt))) (.) R(Zp))) (/) (R(Ap) (.) R(At))
        Bc == (R(Zp) (.) R(Zt)) (/) (R("1.3") (.) (a (+) b))
        l == RLog10(E)
        c == IF l \prec R("1.5") THEN KoxC1 (.) Cube(l (/) R("1.5"))
             ELSE R(2) (-) (R(10) (/) (Sq(Sq(l)) (.) l))
        rs == (R("1.1") (.) (((R("1.85") (.) (a (.) b)) (/) (a (+) b)) (-) c)) (+) D
        ri == (R("1.1") (.) (a (+) b)) (+) rs
    IN ((R(10) (.) PI) (.) Sq(ri)) (.) (One (-) (Bc (/) EcmOf(E, R(Ap), R(At))))
RRound(x) == RToInt(RFloor(x (+) R("0.5")))
\* cross section per molecule at energy E
SigmaMat(p, m, E) ==
    RSum([k \in 1..N(m) |-> MolarFraction(m, k)
            (.) Kox(RRound(p.A), RRound(p.Z), E, IsotopeA(m.e[k].Z, 0), m.e[k].Z)])
ProductionRate(cs, r1, r2, n) ==
    IF RAbs(r2 (-) r1) \prec R(5) THEN ((R("1e-4") (.) cs) (.) n) (.) RExp(R("-1e-4") (.) (r2 (.) n))
    ELSE (cs (.) (RExp(R("-1e-4") (.) (r1 (.) n)) (-) RExp(R("-1e-4") (.) (r2 (.) n)))) (/) (r2 (-) r1)

-----------------------------------------------------------------------------
(* projectile and configuration of a trace event *)
ProjOf(j) == [A |-> j[1], Z |-> j[2], Q |-> IF REq(j[3], Zero) THEN j[2] ELSE j[3], T |-> j[4]]
CfgOf(j) == [zeff |-> j[1], corr |-> j[2], calc |-> j[3], low |-> j[4], scat |-> j[5], sf |-> j[6]]
TgtOf(j) == [A |-> j[1], Z |-> j[2], stn |-> j[3]]
=============================================================================
