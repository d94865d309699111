------------------------------ MODULE Numerics ------------------------------
(***************************************************************************)
(* Energy grids and interpolation.                                         *)
(***************************************************************************)
EXTENDS Constants

(* ------------------------------- grids -------------------------------- *)
\* kinds 0 and 1: logarithmic between 10^lo and 10^hi; kind 2: linear
GridValue(k, lo, hi, n, i) ==            \* i = 0 .. n-1
    LET v == lo (+) ((hi (-) lo) (.) (R(i) (/) R(n - 1))) IN IF k = 2 THEN v ELSE RPow(R(10), v)
Grid(k, lo, hi, n) == [i \in 1..n |-> GridValue(k, lo, hi, n, i - 1)]

\* i (from 0) is the interval of v in the increasing grid g: the last point not above v, up to rounding s
InInterval(g, v, i, s) ==
    IF i < 0 THEN i = -1 /\ v \prec g[1]
    ELSE /\ i < Len(g)
         /\ (g[i + 1] (-) s) \preceq v
         /\ (i + 1 < Len(g) => v \preceq (g[i + 2] (+) s))

(* --------------------- linear interpolation in a table ------------------ *)
Between2(x, a, b, s) == (RMin(a, b) (-) s) \preceq x /\ x \preceq (RMax(a, b) (+) s)
LinearAt(g, y, i, v) == y[i + 1] (+) ((y[i + 2] (-) y[i + 1]) (.) ((v (-) g[i + 1]) (/) (g[i + 2] (-) g[i + 1])))
\* interval by search
Locate(g, v) == (CHOOSE i \in 1..Len(g) : g[i] \preceq v /\ (i = Len(g) \/ v \prec g[i + 1])) - 1
LinearIn(g, y, v) ==
    IF v \prec g[1] \/ v \succ g[Len(g)] THEN Zero
    ELSE LET i == Locate(g, v) IN IF i = Len(g) - 1 THEN y[Len(g)] ELSE LinearAt(g, y, i, v)

(* -------------------------- tridiagonal systems ------------------------- *)
\* lower, diagonal and upper entries a, d, c of each row
TriEntry(a, d, c, i, j) == IF j = i - 1 THEN a[i] ELSE IF j = i THEN d[i] ELSE IF j = i + 1 THEN c[i] ELSE Zero
TriRow(a, d, c, x, i) ==
    LET n == Len(x) IN
    ((IF i > 1 THEN a[i] (.) x[i - 1] ELSE Zero) (+) (d[i] (.) x[i])) (+) (IF i < n THEN c[i] (.) x[i + 1] ELSE Zero)
RECURSIVE TriPivot(_, _, _, _)
TriPivot(a, d, c, i) == IF i = 1 THEN d[1] ELSE d[i] (-) (a[i] (.) (c[i - 1] (/) TriPivot(a, d, c, i - 1)))
\* elimination in order meets a pivot zero
TriStops(a, d, c) == \E i \in DOMAIN d : (\A j \in 1..(i - 1) : ~REq(TriPivot(a, d, c, j), Zero)) /\ REq(TriPivot(a, d, c, i), Zero)

(* ---------------------------- cubic spline ------------------------------ *)
(* Second derivatives M_1..M_n:                                            *)
(*   h_(i-1) M_(i-1) + 2 (h_(i-1) + h_i) M_i + h_i M_(i+1) = 6 (s_i - s_(i-1))  *)
(* with M_1 = M_n = 0, or zero slope at both ends.                         *)
H(g, i) == g[i + 1] (-) g[i]
Slope(g, y, i) == (y[i + 1] (-) y[i]) (/) H(g, i)
Row(g, y, n, nat, i) ==                 \* <<below, diagonal, above, right side>>
    IF i = 1 THEN IF nat THEN <<Zero, One, Zero, Zero>>
                  ELSE <<Zero, R(2) (.) H(g, 1), H(g, 1), R(6) (.) Slope(g, y, 1)>>
    ELSE IF i = n THEN IF nat THEN <<Zero, One, Zero, Zero>>
                  ELSE <<H(g, n - 1), R(2) (.) H(g, n - 1), Zero, RNeg(R(6) (.) Slope(g, y, n - 1))>>
    ELSE <<H(g, i - 1), R(2) (.) (H(g, i - 1) (+) H(g, i)), H(g, i), R(6) (.) (Slope(g, y, i) (-) Slope(g, y, i - 1))>>
RECURSIVE Forward(_, _, _, _, _, _, _)
Forward(g, y, n, nat, i, c, d) ==       \* modified coefficients of elimination
    IF i > n THEN <<c, d>>
    ELSE LET r == Row(g, y, n, nat, i)
             den == IF i = 1 THEN r[2] ELSE r[2] (-) (r[1] (.) c[i - 1])
             num == IF i = 1 THEN r[4] ELSE r[4] (-) (r[1] (.) d[i - 1])
         IN Forward(g, y, n, nat, i + 1, Append(c, r[3] (/) den), Append(d, num (/) den))
RECURSIVE Backward(_, _, _, _)
Backward(c, d, i, m) ==                 \* m holds M_(i+1) .. M_n
    IF i = 0 THEN m
    ELSE Backward(c, d, i - 1, <<d[i] (-) (c[i] (.) Head(m))>> \o m)
Curvatures(g, y, nat) ==
    LET n == Len(g) f == Forward(g, y, n, nat, 1, <<>>, <<>>) IN Backward(f[1], f[2], n - 1, <<f[2][n]>>)
\* value and slope in interval i (from 1) at v
SegValue(g, y, m, i, v) ==
    LET h == H(g, i) t == (v (-) g[i]) a == (g[i + 1] (-) v) IN
    RSum(<<(m[i] (.) (a (.) Sq(a))) (/) (R(6) (.) h), (m[i + 1] (.) (t (.) Sq(t))) (/) (R(6) (.) h),
           ((y[i] (/) h) (-) ((m[i] (.) h) (/) R(6))) (.) a, ((y[i + 1] (/) h) (-) ((m[i + 1] (.) h) (/) R(6))) (.) t>>)
SegSlope(g, y, m, i, v) ==
    LET h == H(g, i) t == (v (-) g[i]) a == (g[i + 1] (-) v) IN
    RSum(<<RNeg((m[i] (.) Sq(a)) (/) (R(2) (.) h)), (m[i + 1] (.) Sq(t)) (/) (R(2) (.) h),
           Slope(g, y, i), RNeg(((m[i + 1] (-) m[i]) (.) h) (/) R(6))>>)
Spline(g, y, m, v) ==                   \* <<value, slope>>, linear outside
    LET n == Len(g) IN
    IF v \prec g[1] THEN LET s == SegSlope(g, y, m, 1, g[1]) IN <<y[1] (+) (s (.) (v (-) g[1])), s>>
    ELSE IF v \succ g[n] THEN LET s == SegSlope(g, y, m, n - 1, g[n]) IN <<y[n] (+) (s (.) (v (-) g[n])), s>>
    ELSE LET i == IF REq(v, g[n]) THEN n - 1 ELSE Locate(g, v) + 1
         IN <<SegValue(g, y, m, i, v), SegSlope(g, y, m, i, v)>>
=============================================================================
