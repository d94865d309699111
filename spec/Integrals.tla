----------------------------- MODULE Integrals ------------------------------
(***************************************************************************)
(* Integrands with known integrals and the orders of the quadrature rules. *)
(***************************************************************************)
EXTENDS Quadrature

(* ------------------------------ integrands ------------------------------ *)
\* 0: polynomial in x - a1; 1: exponential; 2: peak; 3: reciprocal
RECURSIVE Horner(_, _, _)
Horner(a, i, u) == IF i = Len(a) THEN a[i] ELSE a[i] (+) (u (.) Horner(a, i + 1, u))
Polynomial(a, x) == Horner(a, 2, x (-) a[1])
F(f, x) == CASE f.k = 0 -> Polynomial(f.a, x)
             [] f.k = 1 -> f.a[1] (.) RExp(f.a[2] (.) x)
             [] f.k = 2 -> f.a[1] (/) (One (+) Sq((x (-) f.a[2]) (/) f.a[3]))
             [] f.k = 3 -> f.a[1] (/) (x (-) f.a[2])
\* antiderivative
AntiPoly(a) == <<a[1], Zero>> \o [i \in 1..(Len(a) - 1) |-> a[i + 1] (/) R(i)]
Anti(f, x) == CASE f.k = 0 -> Polynomial(AntiPoly(f.a), x)
                [] f.k = 1 -> (f.a[1] (/) f.a[2]) (.) RExp(f.a[2] (.) x)
                [] f.k = 2 -> (f.a[1] (.) f.a[3]) (.) RAtan((x (-) f.a[2]) (/) f.a[3])
                [] f.k = 3 -> f.a[1] (.) RLog(RAbs(x (-) f.a[2]))
Exact(f, a, b) == Anti(f, b) (-) Anti(f, a)
Degree(f) == Len(f.a) - 2
\* magnitude of the terms of a sum over the rule, for rounding
Magnitude(rule, f, a, b) ==
    LET p == (b (-) a) (/) R(2)  q == (a (+) b) (/) R(2) IN
    RAbs(p) (.) RSum([i \in 1..Len(rule) |-> rule[i][2] (.) RAbs(F(f, (p (.) rule[i][1]) (+) q))])

GLOrders == {3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 32, 64, 128}
GLRules == [n \in GLOrders \cup {15, 30} |-> Rule(n)]
GKOrders == {7, 15, 21, 31, 61}
GaussOf(n) == (n - 1) \div 2
KronrodDegree(n) == 3 * GaussOf(n) + 1
=============================================================================
