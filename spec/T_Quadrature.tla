---------------------------- MODULE T_Quadrature ----------------------------
(* recorded integrals of the quadrature rules (P24) *)
EXTENDS TraceBase, Integrals

(* ------------------------------ quadrature ------------------------------ *)
Tol(rule, f, a, b) == (Magnitude(rule, f, a, b) (.) R("1e-9")) (+) R("1e-300")
\* polynomials: rounding of the table, and that of the points in a short interval far from zero
PolyTol(mag, f, a, b) ==
    mag (.) (R("1e-11") (+) ((R("1e-15") (.) R(Degree(f) + 1)) (.) (RMax(RAbs(a), RAbs(b)) (/) RAbs(b (-) a))))
TGl(e) ==
    LET rule == GLRules[e.n] tol == Tol(rule, e.f, e.lo, e.hi) fx(x) == F(e.f, x) IN
    /\ Chk("order", e.r.n = e.n)
    /\ Chk("rule applied", RClose(e.r.v, IntegrateWith(rule, fx, e.lo, e.hi), Zero, tol))
    /\ Chk("call operator", RClose(e.r.op, e.r.v, Zero, tol))
    /\ (e.f.k = 0 /\ Degree(e.f) <= 2 * e.n - 1 => Chk("exact for polynomials",
          RClose(e.r.v, Exact(e.f, e.lo, e.hi), Zero, PolyTol(Magnitude(rule, e.f, e.lo, e.hi), e.f, e.lo, e.hi))))
    /\ Label(<<"gauss", e.n, e.f.k, IF e.lo \prec e.hi THEN "up" ELSE "down">>)
TGlLib(e) ==
    /\ Chk("library rule exact for polynomials", e.f.k = 0 /\ Degree(e.f) <= 15 =>
          RClose(e.r.v, Exact(e.f, e.lo, e.hi), Zero, PolyTol(Magnitude(GLRules[8], e.f, e.lo, e.hi), e.f, e.lo, e.hi)))
    /\ Label(<<"library rule">>)
SamePoints(p, rule, a, b) ==
    LET q == Points(rule, RMin(a, b), RMax(a, b)) n == Len(rule) s == RMax(RAbs(a), RAbs(b)) (.) R("1e-12") IN
    /\ Chk("number of points", Len(p) = n)
    /\ Chk("points", \A i \in 1..n : RClose(p[i], IF a \preceq b THEN q[i] ELSE q[n + 1 - i], Zero, s))
\* weights of one half of the points; the middle point of odd orders has the largest one
Weights(w, n) ==
    LET RECURSIVE big(_) big(i) == IF i = 1 THEN w[1] ELSE RMax(w[i], big(i - 1))
        twice == R(2) (.) RSum(w) IN
    Chk("weights add up to the length", RClose(IF n % 2 = 1 THEN twice (-) big(Len(w)) ELSE twice, R(2), R("1e-12"), Zero))
TGlPoints(e) ==
    /\ Weights(e.r.w, e.n)
    /\ SamePoints(e.r.p, GLRules[e.n], e.lo, e.hi)
    /\ SamePoints(e.r.d, GLRules[e.n], RNeg(One), One)
    /\ Chk("distinct and ordered", \A i \in 1..(e.n - 1) : IF e.lo \prec e.hi THEN e.r.p[i] \prec e.r.p[i + 1] ELSE e.r.p[i] \succ e.r.p[i + 1])
    /\ Label(<<"gauss points", e.n>>)
TGl2(e, r1, r2, v) ==
    LET fx(x) == F(e.f, x) hy(y) == F(e.h, y)
        w == IntegrateWith(r1, fx, e.lo, e.hi) (.) IntegrateWith(r2, hy, e.lo2, e.hi2)
        tol == (Magnitude(r1, e.f, e.lo, e.hi) (.) Magnitude(r2, e.h, e.lo2, e.hi2)) (.) R("1e-9") IN
    Chk("two dimensions", RClose(v, w, Zero, tol))
TGk(e) ==
    LET gn == GaussOf(e.n) big == GLRules[64]
        ex == Exact(e.f, e.lo, e.hi)
        mag == Magnitude(big, e.f, e.lo, e.hi)
        tol == mag (.) R("1e-9")
        want == RMax(e.eps, e.reps (.) RAbs(ex))
        fx(x) == F(e.f, x)
        gdiff == RAbs(IntegrateWith(GLRules[gn], fx, e.lo, e.hi) (-) ex)
        up == e.lo \prec e.hi IN
    /\ (e.f.k = 0 /\ Degree(e.f) <= KronrodDegree(e.n) =>
          /\ Chk("exact for polynomials", RClose(e.r.v, ex, Zero, PolyTol(mag, e.f, e.lo, e.hi)))
          /\ Chk("error estimate", RClose(RAbs(e.r.err), gdiff, R("1e-6"), PolyTol(mag, e.f, e.lo, e.hi) (+) (RAbs(e.hi (-) e.lo) (.) R("1e-15")))))
    /\ (up => /\ Chk("requested tolerance", RClose(e.r.ad, ex, Zero, want (+) tol))
              /\ Chk("sub-intervals", RClose(e.r.iv, ex, Zero, want (+) tol)))
    /\ Label(<<"kronrod", e.n, e.f.k, up>>)
TGkPoints(e) ==
    LET gn == GaussOf(e.n) q == Points(GLRules[gn], RMin(e.lo, e.hi), RMax(e.lo, e.hi))
        s == RMax(RAbs(e.lo), RAbs(e.hi)) (.) R("1e-12") up == e.lo \prec e.hi IN
    /\ Weights(e.r.w, e.n)
    /\ Chk("number of points", Len(e.r.p) = e.n)
    /\ Chk("distinct and ordered", \A i \in 1..(e.n - 1) : IF up THEN e.r.p[i] \prec e.r.p[i + 1] ELSE e.r.p[i] \succ e.r.p[i + 1])
    /\ Chk("inside", \A i \in 1..e.n : e.r.p[i] \succ RMin(e.lo, e.hi) /\ e.r.p[i] \prec RMax(e.lo, e.hi))
    /\ Chk("contains the gauss points", \A i \in 1..gn : RClose(e.r.p[2 * i], IF up THEN q[i] ELSE q[gn + 1 - i], Zero, s))
    /\ Label(<<"kronrod points", e.n>>)
TGkLib(e) ==
    LET ex == Exact(e.f, e.lo, e.hi) IN
    /\ Chk("requested tolerance", RClose(e.r.v, ex, Zero, RMax(e.eps, e.reps (.) RAbs(ex)) (+) (Magnitude(GLRules[64], e.f, e.lo, e.hi) (.) R("1e-9"))))
    /\ Label(<<"library adaptive", e.f.k>>)

Step(e) ==
    CASE e.op = "gl" -> TGl(e)
      [] e.op = "gl_lib" -> TGlLib(e)
      [] e.op = "gl_points" -> TGlPoints(e)
      [] e.op = "gl2" -> TGl2(e, GLRules[e.n], GLRules[e.n], e.r.v) /\ TGl2(e, GLRules[e.n], GLRules[e.n], e.r.a) /\ Label(<<"gauss 2D", e.n>>)
      [] e.op = "gl2a" -> TGl2(e, GLRules[e.n], GLRules[e.k], e.r.v) /\ Label(<<"gauss 2D", e.n, e.k>>)
      [] e.op = "gk" -> TGk(e)
      [] e.op = "gk_points" -> TGkPoints(e)
      [] e.op = "gk_lib" -> TGkLib(e)
Next == Advance /\ Step(Event)
=============================================================================
