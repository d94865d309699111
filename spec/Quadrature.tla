---------------------------- MODULE Quadrature -----------------------------
(***************************************************************************)
(* Gauss-Legendre quadrature.  Points and weights follow from the Legendre *)
(* polynomials, they are not taken from the library.                       *)
(***************************************************************************)
EXTENDS Constants

\* <<P_n(x), P_(n-1)(x)>>
RECURSIVE LegFrom(_, _, _, _, _)
LegFrom(n, k, a, b, x) ==          \* a = P_k, b = P_(k-1)
    IF k = n THEN <<a, b>>
    ELSE LegFrom(n, k + 1, (((R(2*k + 1) (.) x) (.) a) (-) (R(k) (.) b)) (/) R(k + 1), a, x)
Leg(n, x) == LegFrom(n, 1, x, One, x)
LegDeriv(n, x, p) == (R(n) (.) ((x (.) p[1]) (-) p[2])) (/) (Sq(x) (-) One)

RECURSIVE Newton(_, _, _)
Newton(n, x, it) ==
    IF it = 0 THEN x
    ELSE LET p == Leg(n, x) IN Newton(n, x (-) (p[1] (/) LegDeriv(n, x, p)), it - 1)
\* roots from the largest to the smallest
Root(n, i) == IF 2*i = n + 1 THEN Zero
              ELSE Newton(n, RCos((PI (.) (R(i) (-) R("0.25"))) (/) (R(n) (+) R("0.5"))), 4)
Roots(n) == [i \in 1..n |-> LET x == Root(n, IF 2*i <= n + 1 THEN i ELSE n + 1 - i)
                            IN IF 2*i <= n + 1 THEN x ELSE RNeg(x)]
Weight(n, x) == LET d == LegDeriv(n, x, Leg(n, x)) IN R(2) (/) ((One (-) Sq(x)) (.) Sq(d))
Rule(n) == LET rs == Roots(n) IN [i \in 1..n |-> <<rs[i], Weight(n, rs[i])>>]

\* integral of f over [a, b]
IntegrateWith(rule, f(_), a, b) ==
    LET p == (b (-) a) (/) R(2)  q == (a (+) b) (/) R(2) IN
    p (.) RSum([i \in 1..Len(rule) |-> rule[i][2] (.) f((p (.) rule[i][1]) (+) q)])
\* the rule applied to n equal parts
IntegrateParts(rule, f(_), a, b, n) ==
    LET h == (b (-) a) (/) R(n) IN
    RSum([k \in 1..n |-> IntegrateWith(rule, f, a (+) (h (.) R(k - 1)), a (+) (h (.) R(k)))])
\* points in [a, b], increasing
Points(rule, a, b) ==
    LET p == (b (-) a) (/) R(2)  q == (a (+) b) (/) R(2) IN
    [i \in 1..Len(rule) |-> (p (.) rule[Len(rule) + 1 - i][1]) (+) q]

Rule8 == Rule(8)
=============================================================================
